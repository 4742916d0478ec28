"""C16: basis aggregation sums feature times basis per center."""

import numpy as np
import tensorflow as tf

from pylib.pc.custom_ops import basis_proj

from mc import conv
from mc.checks import c12
from mc.impl import need, npy, pc

CONFIGS = [(c, h) for c in (1, 2, 3, 8, 16) for h in (1, 8, 16, 32, 64)]


def cases(tier):
  for k, scene in enumerate(conv.scene_cases(tier)):
    for r in range(2 if tier == 'quick' else 6):
      for limit in (0, 1):
        yield dict(scene, config=(k * 7 + r * 5) % len(CONFIGS), limit=limit,
                   self=(k + r) % 4 == 0)
  for scene in c12.FULL_SCENES:
    for k in range(len(CONFIGS)):
      for limit in (0, 1, 2):
        for own in (False, True):
          yield dict(scene, config=k, limit=limit, self=own)


def check(case, rec):
  c, h = CONFIGS[case['config']]
  scene = conv.Scene(case)
  cin, cout = scene.clouds()
  grid = pc.Grid(cin, scene.radii)
  nb = pc.Neighborhood(grid, scene.radii, None if case['self'] else cout,
                       case['limit'])
  pairs = npy(nb._original_neigh_ids)
  n_out = len(scene.pts) if case['self'] else len(scene.cpts)
  basis = tf.constant(conv.weight_values([len(pairs), h], 1))
  feats = tf.constant(conv.feature_values(len(scene.pts), c))
  with tf.GradientTape() as tape:
    tape.watch([basis, feats])
    got = basis_proj(basis, feats, nb)
    coef = conv.weight_values([n_out, c, h], 2)
    need(got.shape.as_list() == [n_out, c, h], 'shape %s instead of %s',
         got.shape, [n_out, c, h])
    total = tf.reduce_sum(got * coef)
  grads = tape.gradient(total, [basis, feats], unconnected_gradients='zero')
  rec.op(2)
  B, F = npy(basis).astype(np.float64), npy(feats).astype(np.float64)
  want = np.zeros([n_out, c, h])
  want_b, want_f = np.zeros_like(B), np.zeros_like(F)
  for m, (p, q) in enumerate(pairs):
    want[q] += F[p][:, None] * B[m][None]
    want_b[m] = F[p] @ coef[q]
    want_f[p] += coef[q] @ B[m]
  c12.close(got, want, 'basis_proj')
  c12.close(grads[0], want_b, 'derivative by the basis')
  c12.close(grads[1], want_f, 'derivative by the features')
  rec.state((case['config'], pairs.tolist(), n_out))
