"""C12: MCConv computes the Monte-Carlo convolution of its definition."""

import itertools

import numpy as np
import tensorflow as tf

from mc import conv
from mc.engine import Violation
from mc.impl import layers, need, npy, pc

MLPS = [1, 2, 4]
SIZES = [[8], [4], [8, 8], [3, 5]]
ACTS = ['leaky_ReLU', 'ReLU', 'ELU']
FEATURES = [(1, 4), (3, 8)]
CALLS = ['inside', 'given', 'computed']
CONFIGS = list(itertools.product(MLPS, SIZES, ACTS, FEATURES, [0.2, 0.5],
                                 CALLS)) + [
    # many features
    (1, [8], 'leaky_ReLU', (70, 5), 0.2, 'inside'),
    (4, [16], 'ELU', (33, 64), 0.5, 'given'),
    (3, [32, 16], 'ReLU', (2, 6), 0.2, 'computed'),
    (2, [64], 'leaky_ReLU', (5, 40), 0.5, 'inside'),
    (8, [8, 8, 8], 'ELU', (5, 16), 0.2, 'inside'),
    (16, [8], 'ReLU', (18, 144), 0.2, 'inside')]
FULL_SCENES = [
    {'d': 2, 'clouds': [[[0.0, 0.0], [0.5, 0.25], [1.0, -0.5]],
                        [[0.25, 0.75], [3.0, 0.0]]],
     'radius': 1.125, 'centers': 'far', 'pattern': 1, 'empty': 1},
    {'d': 3, 'clouds': [[[0.0, 0.0, 0.5], [0.5, 0.25, 0.5]],
                        [[0.25, 0.75, 0.0], [0.5, 0.0, 0.25]]],
     'radius': 1.5, 'centers': 'same', 'pattern': 2, 'empty': 0}]


def cases(tier):
  step = 7
  for k, scene in enumerate(conv.scene_cases(tier)):
    for r in range(1 if tier == 'quick' else 3):
      yield dict(scene, config=(k * step + r * 29) % len(CONFIGS))
  for scene in FULL_SCENES:
    for k in range(len(CONFIGS)):
      yield dict(scene, config=k)


def close(got, want, what, scale=None):
  got, want = npy(tf.convert_to_tensor(got)), npy(want)
  need(got.shape == want.shape, '%s: shape %s instead of %s', what, got.shape,
       want.shape)
  scale = max(np.abs(want).max(initial=0), scale or 0, 1e-3)
  need(np.all(np.isfinite(got)), '%s: not finite: %s', what, got.tolist())
  err = np.abs(got - want)
  bad = err > 1e-3 * np.abs(want) + 2e-4 * scale
  if np.any(bad):
    at = np.argwhere(bad)[0]
    raise Violation('%s: %d of %d values differ, at %s got %r want %r' % (
        what, bad.sum(), bad.size, at.tolist(), got[tuple(at)],
        want[tuple(at)]))


def compare(run, define, variables, pts, feats, rec, what,
            by_points=True):
  """run(P, F) on the implementation, define(P, F, W) the definition; the
  outputs and all first derivatives agree."""
  P, F = tf.constant(pts), tf.constant(feats)
  P64, F64 = tf.constant(pts, tf.float64), tf.constant(feats, tf.float64)
  W64 = conv.as64(variables)
  names = sorted(variables)
  with tf.GradientTape() as tape:
    tape.watch([P, F])
    got = run(P, F)
    coef = conv.weight_values(got.shape.as_list(), 3)
    total = tf.reduce_sum(got * coef)
  with tf.GradientTape() as tape64:
    tape64.watch([P64, F64] + [W64[n] for n in names])
    want = define(P64, F64, W64)
    total64 = tf.reduce_sum(want * coef.astype(np.float64))
  rec.op(2)
  close(got, want, what)
  grads = tape.gradient(total, [P, F] + [variables[n] for n in names],
                        unconnected_gradients='zero')
  wants = tape64.gradient(total64, [P64, F64] + [W64[n] for n in names],
                          unconnected_gradients='zero')
  if not by_points:
    grads, wants = grads[1:], wants[1:]
  for name, g, w in zip((['points'] if by_points else []) + ['features'] +
                        names, grads, wants):
    close(g, w, '%s: derivative by %s' % (what, name))
  return npy(got)


def prepare(case, call, scene, cin, cout, bandwidth):
  """The neighborhood argument of a call."""
  if call == 'inside':
    return None
  grid = pc.Grid(cin, scene.radii * np.float32(1.5))
  nb = pc.Neighborhood(grid, scene.radii, cout)
  if call == 'computed':
    nb.compute_pdf(bandwidth=2 * bandwidth)
  return nb


def check(case, rec):
  mlps, sizes, activation, (c1, c2), bandwidth, call = CONFIGS[case['config']]
  scene = conv.Scene(case)
  layer = layers.MCConv(c1, c2, scene.d, mlps, list(sizes), activation)
  variables = conv.set_weights(layer)
  feats = conv.feature_values(len(scene.pts), c1)

  def run(P, F):
    cin, cout = scene.clouds(P)
    return layer(F, cin, cout, scene.radius, bandwidth=bandwidth,
                 neighborhood=prepare(case, call, scene, cin, cout, bandwidth))

  def define(P, F, W):
    return conv.mcconv(scene, P, F, W, mlps, sizes, activation,
                       bandwidth * (2 if call == 'computed' else 1))

  got = compare(run, define, variables, scene.pts, feats, rec,
                'MCConv %s' % (CONFIGS[case['config']],))
  alone = np.setdiff1d(np.arange(len(scene.cpts)), scene.c)
  need(not np.any(got[alone]), 'centers without neighbors: %s',
       got[alone].tolist())
  rec.state((case['config'], scene.pts.tolist(), np.round(got, 3).tolist()))
