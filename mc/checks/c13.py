"""C13: PointConv computes the convolution of its definition."""

import itertools

import numpy as np
import tensorflow as tf

from mc import conv
from mc.checks import c12
from mc.impl import layers, need, npy

HIDDEN = [8, 16, 32]
ACTS = ['ReLU', 'leaky_ReLU', 'ELU']
FEATURES = [(1, 4), (3, 2)]
CONFIGS = list(itertools.product(HIDDEN, ACTS, FEATURES, [0.2, 0.5],
                                 c12.CALLS)) + [
    # many features
    (64, 'ReLU', (70, 3), 0.2, 'inside'),
    (8, 'leaky_ReLU', (33, 130), 0.5, 'given'),
    (24, 'ELU', (20, 40), 0.2, 'computed')]


def cases(tier):
  for k, scene in enumerate(conv.scene_cases(tier)):
    for r in range(1 if tier == 'quick' else 3):
      yield dict(scene, config=(k * 7 + r * 29) % len(CONFIGS))
  for scene in c12.FULL_SCENES:
    for k in range(len(CONFIGS)):
      yield dict(scene, config=k)


def check(case, rec):
  hidden, activation, (c1, c2), bandwidth, call = CONFIGS[case['config']]
  scene = conv.Scene(case)
  layer = layers.PointConv(c1, c2, scene.d, hidden, activation)
  variables = conv.set_weights(layer)
  # keep the transformed densities away from zero
  variables['pdf_biases_2'].assign([[4.0]])
  for n in ('pdf_weights_1', 'pdf_weights_2', 'pdf_biases_1'):
    variables[n].assign(variables[n] * 0.5)
  feats = conv.feature_values(len(scene.pts), c1)

  def run(P, F):
    cin, cout = scene.clouds(P)
    return layer(F, cin, cout, scene.radius, bandwidth=bandwidth,
                 neighborhood=c12.prepare(case, call, scene, cin, cout,
                                          bandwidth))

  def define(P, F, W):
    return conv.pointconv(scene, P, F, W, hidden, activation,
                          bandwidth * (2 if call == 'computed' else 1))

  # the largest of equal densities has no derivative
  dens = npy(scene.density(tf.constant(scene.pts, tf.float64), bandwidth * (
      2 if call == 'computed' else 1)))
  ties = False
  for c in range(len(scene.cpts)):
    top = np.sort(dens[scene.p[scene.c == c]])[-2:]
    ties = ties or (len(top) == 2 and top[1] - top[0] < 1e-4 * top[1])
  got = c12.compare(run, define, variables, scene.pts, feats, rec,
                    'PointConv %s' % (CONFIGS[case['config']],),
                    by_points=not ties)
  alone = np.setdiff1d(np.arange(len(scene.cpts)), scene.c)
  need(not np.any(got[alone]), 'centers without neighbors: %s',
       got[alone].tolist())
  rec.state((case['config'], scene.pts.tolist(), np.round(got, 3).tolist()))
