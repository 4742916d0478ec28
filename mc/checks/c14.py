"""C14: rigid KPConv computes the convolution of its definition."""

import itertools
from unittest import mock

import numpy as np
import tensorflow as tf

from pylib.pc.layers.utils import cube_kernel_points, spherical_kernel_points

from mc import conv
from mc.checks import c12
from mc.impl import layers, need, npy, pc

KERNELS = ['s5', 's7', 's13', 's15', 's18', 'c1', 'c2', 'c3', 'k2', 'k8',
           'k16', 'k17', 'k32', 'k40']
INTERPOLATIONS = ['linear', 'gaussian']
# in units of the radius
INFLUENCE = [None, 0.4, 0.75, 1.5]
FEATURES = [(1, 4), (3, 2)]
CALLS = ['inside', 'given']
CONFIGS = [c for c in itertools.product(KERNELS, INTERPOLATIONS, INFLUENCE,
                                        FEATURES, CALLS)] + [
    # many features and kernel points
    ('s15', 'linear', INFLUENCE[0], (70, 3), 'inside'),
    ('k8', 'gaussian', INFLUENCE[0], (33, 130), 'given'),
    ('k64', 'linear', INFLUENCE[-1], (20, 7), 'inside'),
    ('c4', 'gaussian', INFLUENCE[0], (5, 40), 'given')]


def cases(tier):
  for k, scene in enumerate(conv.scene_cases(tier)):
    for r in range(1 if tier == 'quick' else 3):
      yield dict(scene, config=(k * 11 + r * 29) % len(CONFIGS))
  for scene in c12.FULL_SCENES:
    for k in range(len(CONFIGS)):
      yield dict(scene, config=k)


def uniform(shape, minval=0, maxval=None, dtype=tf.float32, *args, **kwargs):
  return tf.constant(np.resize([0.7, 2.1, 4.4], shape), dtype)


def custom(n, d):
  i = np.arange(n)[:, None]
  k = np.arange(d)[None, :]
  return np.cos(1.0 + 2.1 * i + 1.3 * k * (i + 1)) * 0.9


def make_layer(kind, c1, c2, d, interpolation, **kwargs):
  """A layer and its kernel points in units of the radius."""
  n = int(kind[1:])
  with mock.patch.object(tf.random, 'uniform', uniform):
    if kind[0] == 's' and d == 3:
      points = npy(spherical_kernel_points(n, rotate=True))
      layer = layers.KPConv(c1, c2, n, d, kp_interpolation=interpolation,
                            **kwargs)
    else:
      if kind[0] == 'c' and d == 3:
        points = npy(cube_kernel_points(n))
      else:
        points = custom(n, d).astype(np.float32)
      layer = layers.KPConv(c1, c2, len(points), d,
                            kp_interpolation=interpolation,
                            custom_kernel_points=points, **kwargs)
  return layer, np.asarray(points, np.float64) * 0.75


def neighborhood(call, scene, cin, cout):
  if call == 'inside':
    return None
  return pc.Neighborhood(pc.Grid(cin, scene.radii * np.float32(1.5)),
                         scene.radii, cout)


def check(case, rec):
  kind, interpolation, factor, (c1, c2), call = CONFIGS[case['config']]
  scene = conv.Scene(case)
  layer, kernel = make_layer(kind, c1, c2, scene.d, interpolation)
  variables = {'conv_weights': [v for v in layer.trainable_variables
                                if v.shape.as_list()[-1:] == [c2]][0]}
  variables['conv_weights'].assign(conv.weight_values(
      variables['conv_weights'].shape.as_list()))
  feats = conv.feature_values(len(scene.pts), c1)
  sigma = 1 / 2.5 if factor is None else factor
  influence = None if factor is None else factor * scene.radius

  def run(P, F):
    cin, cout = scene.clouds(P)
    return layer(F, cin, cout, scene.radius,
                 neighborhood(call, scene, cin, cout), influence)

  def define(P, F, W):
    return conv.kpconv(scene, P, F, W, kernel, sigma, interpolation)[0]

  got = c12.compare(run, define, variables, scene.pts, feats, rec,
                    'KPConv %s' % (CONFIGS[case['config']],),
                    by_points=False)
  alone = np.setdiff1d(np.arange(len(scene.cpts)), scene.c)
  need(not np.any(got[alone]), 'centers without neighbors: %s',
       got[alone].tolist())
  rec.state((case['config'], scene.pts.tolist(), np.round(got, 3).tolist()))
