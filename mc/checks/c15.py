"""C15: deformable KPConv moves kernel points by its offset network."""

import itertools

import numpy as np
import tensorflow as tf

from mc import conv
from mc.checks import c12, c14
from mc.impl import need, need_close, npy, pc

KERNELS = ['s5', 's7', 's15', 's18', 'c2', 'k2', 'k8', 'k16', 'k17']
CONFIGS = list(itertools.product(KERNELS, c14.INTERPOLATIONS, c14.INFLUENCE,
                                 c14.FEATURES, c14.CALLS, ['zero', 'move'])) + [
    # many features and kernel points
    ('s15', 'linear', None, (70, 3), 'inside', 'move'),
    ('k8', 'gaussian', None, (33, 130), 'given', 'move'),
    ('k64', 'linear', 1.5, (20, 7), 'inside', 'move')]


def cases(tier):
  scenes = list(conv.scene_cases(tier))
  for k, scene in enumerate(scenes):
    for r in range(1 if tier == 'quick' else 3):
      yield dict(scene, config=(k * 11 + r * 29) % len(CONFIGS))
  for scene in c12.FULL_SCENES:
    for k in range(len(CONFIGS)):
      yield dict(scene, config=k)
  # the regularization loss is that of the last call
  small = [s for s in scenes if s['centers'] in ('same', 'own') and
           s['d'] == 3 and len(s['clouds']) == 2][:6] + [
               dict(s, centers='same') for s in c12.FULL_SCENES]
  for d in (2, 3):
    sub = [s for s in small if s['d'] == d]
    for a, b in itertools.product(range(len(sub)), repeat=2):
      for interpolation in c14.INTERPOLATIONS:
        yield {'sequence': [sub[a], sub[b]], 'd': d,
               'interpolation': interpolation}


def make(kind, c1, c2, d, interpolation, weights):
  layer, kernel = c14.make_layer(kind, c1, c2, d, interpolation,
                                 deformable=True)
  variables = conv.set_weights(layer)
  w = variables['weights_deformable']
  w.assign(w * (0.0 if weights == 'zero' else 0.4))
  return layer, kernel, variables


def loss(scene, dist, offsets, kernel, sigma, interpolation):
  """Fitting and repulsive loss; a center without neighbors fits nothing."""
  fit = tf.zeros([], tf.float64)
  for c in np.unique(scene.c):
    mine = tf.gather(dist, np.where(scene.c == c)[0])
    fit += tf.reduce_sum(tf.reduce_min((mine / sigma) ** 2, axis=0))
  pos = tf.constant(kernel, tf.float64)[None] + offsets
  w = conv.influence(conv.norm(pos[:, :, None] - pos[:, None]), sigma,
                     interpolation)
  return fit + tf.reduce_sum(w * (1 - np.eye(len(kernel))))


def compare_loss(layer, run, variables, scene, feats, kernel, sigma,
                 interpolation, derivatives, what):
  F = tf.constant(feats)
  W64 = conv.as64(variables)
  F64 = tf.constant(feats, tf.float64)
  w, w64 = variables['weights_deformable'], W64['weights_deformable']
  with tf.GradientTape() as tape:
    tape.watch(F)
    run(tf.constant(scene.pts), F)
    got = layer.regularization_loss()
  with tf.GradientTape() as tape64:
    tape64.watch([F64, w64])
    _, dist, offsets = conv.kpconv(
        scene, tf.constant(scene.pts, tf.float64), F64, W64, kernel, sigma,
        interpolation, True)
    want = loss(scene, dist, offsets, kernel, sigma, interpolation)
  need_close(got, np.float32(npy(want)), '%s: regularization loss' % what,
             rtol=1e-3, atol=1e-3)
  if derivatives:
    for name, g, e in zip(
        ('features', 'weights_deformable'),
        tape.gradient(got, [F, w], unconnected_gradients='zero'),
        tape64.gradient(want, [F64, w64], unconnected_gradients='zero')):
      need_close(g, np.float32(npy(e)),
                 '%s: derivative of the regularization loss by %s' % (
                     what, name), rtol=2e-3, atol=2e-3)


def check(case, rec):
  if 'sequence' in case:
    return check_sequence(case, rec)
  kind, interpolation, factor, (c1, c2), call, weights = \
      CONFIGS[case['config']]
  scene = conv.Scene(case)
  layer, kernel, variables = make(kind, c1, c2, scene.d, interpolation,
                                  weights)
  feats = conv.feature_values(len(scene.pts), c1)
  sigma = 1 / 2.5 if factor is None else factor
  influence = None if factor is None else factor * scene.radius

  def run(P, F):
    cin, cout = scene.clouds(P)
    return layer(F, cin, cout, scene.radius,
                 c14.neighborhood(call, scene, cin, cout), influence)

  def define(P, F, W):
    return conv.kpconv(scene, P, F, W, kernel, sigma, interpolation, True)[0]

  what = 'deformable KPConv %s' % (CONFIGS[case['config']],)
  if weights == 'zero':
    # a kernel point on a neighbor has no derivative: outputs only
    F = tf.constant(feats)
    got = npy(run(tf.constant(scene.pts), F))
    F64 = tf.constant(feats, tf.float64)
    P64 = tf.constant(scene.pts, tf.float64)
    rigid = conv.kpconv(scene, P64, F64, conv.as64(variables), kernel, sigma,
                        interpolation)[0]
    c12.close(got, rigid, what)
    rec.op(1)
  else:
    got = c12.compare(run, define, variables, scene.pts, feats, rec, what,
                      by_points=False)
  compare_loss(layer, run, variables, scene, feats, kernel, sigma,
               interpolation, weights != 'zero', what)
  rec.op()
  alone = np.setdiff1d(np.arange(len(scene.cpts)), scene.c)
  need(not np.any(got[alone]), 'centers without neighbors: %s',
       got[alone].tolist())
  rec.state((case['config'], scene.pts.tolist(), np.round(got, 3).tolist()))


def check_sequence(case, rec):
  layer, kernel, variables = make('s7' if case['d'] == 3 else 'k8', 2, 2,
                                  case['d'], case['interpolation'], 'move')
  for k, spec in enumerate(case['sequence']):
    scene = conv.Scene(spec)
    feats = conv.feature_values(len(scene.pts), 2, salt=k)
    cin, cout = scene.clouds()
    sigma = 0.5 + 0.25 * k
    got = layer(feats, cin, cout, scene.radius, None, sigma * scene.radius)
    out, dist, offsets = conv.kpconv(
        scene, tf.constant(scene.pts, tf.float64),
        tf.constant(feats, tf.float64), conv.as64(variables), kernel, sigma,
        case['interpolation'], True)
    c12.close(got, out, 'call %d' % k)
    rec.op(2)
    want = loss(scene, dist, offsets, kernel, sigma, case['interpolation'])
    want = np.float32(npy(want))
    need_close(layer.regularization_loss(), want,
               'regularization loss after call %d' % k, rtol=1e-3, atol=1e-3)
    # asking does not change the answer
    need_close(layer.regularization_loss(), want,
               'second regularization loss', rtol=1e-3, atol=1e-3)
  rec.state((str(case), npy(got).tolist()))
