"""C11: densities equal the kernel density estimate of the definition."""

import numpy as np
import tensorflow as tf

from pylib.pc.custom_ops.custom_ops_tf import \
    compute_pdf_inside_neighborhoods_tf
from pylib.pc.Neighborhood import (KDEMode, compute_neighborhoods,
                                   density_estimation,
                                   density_estimation_in_neighborhoods)

from mc import ref, spaces
from mc.checks import c04, c06
from mc.conv import decided_pairs
from mc.impl import need, need_close, need_equal, npy, pc

BANDWIDTHS = [[0.2], [0.5], 'aniso']


def bandwidth(spec, d):
  if spec == 'aniso':
    return [[0.25, 0.75, 0.5, 0.3, 1.0][k] for k in range(d)]
  return list(spec)


def cases(tier):
  small = {2: (spaces.AXIS3, 2), 3: (spaces.AXIS2, 2), 4: (spaces.AXIS2, 1)}
  if tier == 'thorough':
    small = {2: (spaces.AXIS4, 3), 3: (spaces.AXIS3, 2),
             4: (spaces.AXIS2, 2)}
  for d, (axis, nmax) in small.items():
    for size in (1, 6):
      for k, pack in enumerate(spaces.packs(spaces.clouds(d, axis, nmax),
                                            size)):
        for i, rad in enumerate([[0.75], [1.75], 'aniso', 'aniso2']):
          for j, bw in enumerate(BANDWIDTHS):
            for l, cen in enumerate(c06.CENTERS):
              if tier == 'quick' and (i + j + k + l) % (
                  8 if size == 1 else 2):
                continue
              yield {'d': d, 'clouds': pack, 'radii': rad, 'bw': bw,
                     'mult': 1.0, 'centers': cen,
                     'pattern': (k + i + j + l) % 3, 'empty': (k + l) % 2}
  kinds = spaces.KINDS
  for d in (2, 3, 4, 5) if tier == 'thorough' else (2, 3, 4):
    for a, kind in enumerate(kinds):
      for i, rad in enumerate([[1.125], 'aniso']):
        for j, bw in enumerate(BANDWIDTHS):
          for l, cen in enumerate(c06.CENTERS):
            if tier == 'quick' and (a + i + j + l) % 2:
              continue
            yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                      spaces.structured(d, 'skewed')],
                   'radii': rad, 'bw': bw, 'mult': 1.0, 'centers': cen,
                   'pattern': (a + l) % 3, 'empty': 0}
  for d in (2, 3):
    for a, kind in enumerate(['large', 'offset', 'huge']):
      for l, cen in enumerate(c06.CENTERS):
        yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                  spaces.structured(d, 'skewed')],
               'radii': [1.125], 'bw': BANDWIDTHS[(a + l) % 3], 'mult': 1.0,
               'centers': cen, 'pattern': (a + l) % 3, 'empty': 0}
  # larger cells, and grids with another bounding box
  n = 0
  for d in (2, 3, 4):
    for kind in ('skewed', 'lattice', 'dups'):
      for cen in c06.CENTERS:
        for box in c04.BOXES:
          for mult in (1.0, 1.5) if box else (1.5, 4.0):
            n += 1
            if tier == 'quick' and n % 4:
              continue
            yield {'d': d, 'clouds': [spaces.structured(d, 'skewed'),
                                      spaces.structured(d, kind)],
                   'radii': c06.RADII[n // 4 % 4],
                   'bw': BANDWIDTHS[n // 4 % 3], 'mult': mult, 'centers': cen,
                   'pattern': n // 4 % 3, 'empty': n // 12 % 2, 'box': box}


def gaussian(P, p, c, rel):
  z = (tf.gather(P, p) - tf.gather(P, c)) / rel
  return tf.reduce_prod(tf.exp(-z * z / 2) / np.sqrt(2 * np.pi), axis=1)


def check(case, rec):
  cl, grid, rad, full, centers, pts, ids, b = c06.make(case)
  d = case['d']
  bw = bandwidth(case['bw'], d)
  bw_full = np.array(bw * d if len(bw) == 1 else bw, np.float32)
  bw_arg = bw_full if len(bw) > 1 else bw[0]
  rad_arg = np.array(rad, np.float32) if len(rad) > 1 else rad[0]
  p, c = decided_pairs(pts, ids, pts, ids, full)
  rel = bw_full.astype(np.float64) * full
  P64 = tf.constant(pts, tf.float64)
  coef = 0.5 + (np.arange(len(pts)) * 5 % 7) / 4.0

  with tf.GradientTape() as ref_tape:
    ref_tape.watch(P64)
    dens = tf.math.unsorted_segment_sum(
        gaussian(P64, p, c, rel), c, len(pts)) / np.prod(
            bw_full.astype(np.float64))
    total = tf.reduce_sum(dens * coef)
  want_grad = npy(ref_tape.gradient(total, P64))
  dens = npy(dens)
  scale = np.abs(dens).max()

  # per point, in input order, with derivative
  P = tf.constant(pts)
  with tf.GradientTape() as tape:
    tape.watch(P)
    watched = pc.PointCloud(P, batch_ids=ids, batch_size=b)
    got = density_estimation(watched, bw_arg, rad_arg)
    total = tf.reduce_sum(got * coef.astype(np.float32))
  need_close(got, dens, 'density_estimation', rtol=1e-3, atol=1e-5 * scale)
  grad = tape.gradient(total, P)
  need(grad is not None, 'densities are not differentiable')
  grad = npy(tf.convert_to_tensor(grad))
  gscale = max(np.abs(want_grad).max(), scale)
  need_close(grad, want_grad, 'derivative of density_estimation', rtol=2e-3,
             atol=2e-4 * gscale)
  need_equal(density_estimation(cl, bw_arg, rad_arg, KDEMode.no_pdf),
             np.ones(len(pts), np.float32), 'no_pdf')
  rec.op(3)

  # per pair
  nb = pc.Neighborhood(grid, rad_arg, centers)
  pairs = npy(nb._original_neigh_ids)
  if centers is None:
    cpts, cids = npy(grid._sorted_points), npy(grid._sorted_batch_ids)
  else:
    cpts, cids = npy(centers._points), npy(centers._batch_ids)
  decided_pairs(pts, ids, cpts, cids, full)
  count = np.bincount(pairs[:, 1], minlength=len(cpts))
  table = compute_neighborhoods(grid, rad_arg, centers)
  tpairs = npy(table)
  for normalize in (False, True):
    div = count[pairs[:, 1]] if normalize else 1
    nb.compute_pdf(bw_arg, normalize=normalize)
    need_close(nb.get_pdf(), dens[pairs[:, 0]] / div,
               'Neighborhood.get_pdf, normalize=%s' % normalize, rtol=1e-3,
               atol=1e-5 * scale)
    got = density_estimation_in_neighborhoods(
        cl, table, bw_arg, rad_arg, normalize=normalize)
    div = count[tpairs[:, 1]] if normalize else 1
    need_close(got, dens[tpairs[:, 0]] / div,
               'density_estimation_in_neighborhoods, normalize=%s' % normalize,
               rtol=1e-3, atol=1e-5 * scale)
    rec.op(2)
  fresh = pc.Neighborhood(grid, rad_arg, centers)
  need_close(fresh.get_pdf(bandwidth=bw_arg), dens[pairs[:, 0]],
             'get_pdf with arguments', rtol=1e-3, atol=1e-5 * scale)
  fresh.compute_pdf(mode=KDEMode.no_pdf)
  need_equal(fresh.get_pdf(), np.ones(len(pairs), np.float32), 'no_pdf')
  rec.op(2)

  # among the neighbors of every center
  if len(pairs):
    same = pairs[:, 1][:, None] == pairs[:, 1][None, :]
    i, j = np.nonzero(same)
    inside = npy(gaussian(P64, pairs[i, 0], pairs[j, 0], rel))
    want = np.zeros(len(pairs))
    np.add.at(want, i, inside)
    want /= np.prod(bw_full.astype(np.float64))
    got = compute_pdf_inside_neighborhoods_tf(
        nb, tf.constant(bw_full), KDEMode.constant)
    need_close(got, want, 'compute_pdf_inside_neighborhoods', rtol=1e-3,
               atol=1e-5 * np.abs(want).max())
    rec.op()
  rec.state((case['d'], full.tolist(), bw_full.tolist(), pts.tolist(),
             ids.tolist(), pairs.tolist()))
