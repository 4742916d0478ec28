"""The public API in one pass, for relations between runs of the real code
(batches and their elements, permutations, graph mode)."""

import numpy as np
import tensorflow as tf

from pylib.pc.Neighborhood import compute_neighborhoods, density_estimation

from mc import conv
from mc.checks import c14
from mc.impl import layers, need, npy, pc

RADII = [0.71, 1.37, 0.93, 1.1]
CELLS = [[0.83, 1.19, 0.97, 1.3], [2.13]]
IN, OUT = 2, 3


def make_layers(d):
  out = {
      'Conv1x1': layers.Conv1x1(IN, OUT),
      'MCConv': layers.MCConv(IN, OUT + 1, d, 2, [4]),
      'PointConv': layers.PointConv(IN, OUT, d, 8),
      'KPConv': layers.KPConv(IN, OUT, 8, d,
                              custom_kernel_points=c14.custom(8, d)),
      'KPConvGauss': layers.KPConv(IN, OUT, 8, d,
                                   custom_kernel_points=c14.custom(8, d),
                                   kp_interpolation='gaussian'),
      'KPConvDeform': layers.KPConv(IN, OUT, 8, d, deformable=True,
                                    custom_kernel_points=c14.custom(8, d)),
  }
  for k, (name, layer) in enumerate(sorted(out.items())):
    w = conv.set_weights(layer, k)
    if name == 'PointConv':
      w['pdf_biases_2'].assign([[6.0]])
  out['MaxPooling'] = layers.MaxPooling()
  out['AveragePooling'] = layers.AveragePooling()
  out['GlobalMaxPooling'] = layers.GlobalMaxPooling()
  out['GlobalAveragePooling'] = layers.GlobalAveragePooling()
  return out


CONVS = ['MCConv', 'PointConv', 'KPConv', 'KPConvGauss', 'KPConvDeform',
         'MaxPooling', 'AveragePooling']


def structures(cin, cout, d):
  """Neighborhoods, densities, samples and hierarchies: name -> tensor."""
  radii = np.array(RADII[:d], np.float32)
  cells = np.array(CELLS[0][:d], np.float32)
  out = {}
  grid = pc.Grid(cin, radii)
  nb = pc.Neighborhood(grid, radii, cout)
  out['pairs'] = nb._original_neigh_ids
  out['ranges'] = nb._samples_neigh_ranges
  out['pdf'] = nb.get_pdf(bandwidth=0.4)
  out['own pairs'] = compute_neighborhoods(grid, radii, cin)
  back = nb.transpose()
  out['back pairs'] = back._original_neigh_ids
  out['back ranges'] = back._samples_neigh_ranges
  out['density'] = density_estimation(cin, 0.3, radii)
  avg = pc.cell_average_sampling(cin, cells)
  out['average points'], out['average ids'] = avg._points, avg._batch_ids
  h = pc.PointHierarchy(cin, [cells, CELLS[1]], 'cell average')
  for i in range(3):
    out['level %d points' % i] = h[i]._points
    out['level %d ids' % i] = h[i]._batch_ids
  up = h.get_neighborhood(1)
  out['level pairs'] = up._original_neigh_ids
  out['level ranges'] = up._samples_neigh_ranges
  return out


def features_through(net, feats, cin, cout, radius):
  """Outputs of all layers and the derivatives of all of them by the
  features."""
  out, total = {}, 0.0
  with tf.GradientTape() as tape:
    tape.watch(feats)
    for name in CONVS:
      y = net[name](feats, cin, cout, radius)
      out[name] = y
      if 'Pooling' not in name:
        k = tf.range(1, y.shape[-1] + 1, dtype=tf.float32)
        total += tf.reduce_sum(y * y * 0.125 + y * k)
    out['Conv1x1'] = net['Conv1x1'](feats, cin)
    total += tf.reduce_sum(out['Conv1x1'] ** 2)
    for name in ('GlobalMaxPooling', 'GlobalAveragePooling'):
      out[name] = net[name](feats, cin)
  out['derivative'] = tape.gradient(total, feats)
  return out


# --- canonical results of a batch: {quantity: {label: value}}, where a label
# names a point by its element and its number within the element


def labels_of(ids):
  count, out = {}, []
  for e in np.asarray(ids).tolist():
    out.append((e, count.get(e, 0)))
    count[e] = count.get(e, 0) + 1
  return out


def canonical(raw, plabels, clabels, batch_size, reached):
  """plabels, clabels: label of every input and center point; reached: which
  centers have neighbors (pooling of nothing is not specified)."""
  out = {}
  pairs, pdf = npy(raw['pairs']), npy(raw['pdf'])
  out['pairs'] = {(plabels[p], clabels[c]): v for (p, c), v in
                  zip(pairs.tolist(), pdf.tolist())}
  need(len(out['pairs']) == len(pairs), 'a pair is listed twice')
  for name, lc, lp in (('own pairs', plabels, plabels),
                       ('back pairs', plabels, clabels)):
    got = npy(raw[name]).tolist()
    out[name] = {(lp[p], lc[c]): 1.0 for p, c in got}
    need(len(out[name]) == len(got), '%s: a pair is listed twice', name)
  out['density'] = dict(zip(plabels, npy(raw['density']).tolist()))
  for name in ('average', 'level 0', 'level 1', 'level 2'):
    pts, ids = npy(raw[name + ' points']), npy(raw[name + ' ids'])
    rows = {}
    for e in range(batch_size):
      # the order within an element is not part of the result
      mine = sorted(pts[ids == e].tolist(),
                    key=lambda r: [round(x, 3) for x in r])
      rows.update({(e, i): r for i, r in enumerate(mine)})
    out[name] = rows
  for name in CONVS:
    if name in raw:
      out[name] = {l: row for l, row, r in zip(
          clabels, npy(raw[name]).tolist(), reached)
                   if r or 'Pooling' not in name}
  for name in ('Conv1x1', 'derivative'):
    if name in raw:
      out[name] = dict(zip(plabels, npy(raw[name]).tolist()))
  for name in ('GlobalMaxPooling', 'GlobalAveragePooling'):
    if name in raw:
      rows = npy(raw[name])
      out[name] = {(e, 0): rows[e].tolist() for e in range(batch_size)
                   if any(l[0] == e for l in plabels)}
  return out


def run(net, d, pts, ids, feats, cpts, cids, b, radius, plabels=None,
        clabels=None):
  """Canonical results of one batch, eagerly."""
  cin = pc.PointCloud(np.asarray(pts, np.float32).reshape(-1, d),
                      batch_ids=np.asarray(ids, np.int32), batch_size=b)
  cout = pc.PointCloud(np.asarray(cpts, np.float32).reshape(-1, d),
                       batch_ids=np.asarray(cids, np.int32), batch_size=b)
  raw = structures(cin, cout, d)
  raw.update(features_through(net, tf.constant(feats), cin, cout, radius))
  p, c = conv.decided_pairs(pts, ids, cpts, cids, np.full(d, radius))
  return canonical(raw, plabels or labels_of(ids), clabels or labels_of(cids),
                   b, np.isin(np.arange(len(cids)), c))


def compare(got, want, what):
  need(set(got) == set(want), '%s: %s', what, sorted(set(got) ^ set(want)))
  for name in want:
    a, b = got[name], want[name]
    if set(a) != set(b):
      need(False, '%s, %s: %s only here, %s only there', what, name,
           sorted(set(a) - set(b))[:5], sorted(set(b) - set(a))[:5])
    for label in b:
      x, y = np.asarray(a[label]), np.asarray(b[label])
      ok = x.shape == y.shape and np.allclose(
          x, y, rtol=2e-4, atol=2e-5, equal_nan=True)
      need(ok, '%s, %s of %s: %s and %s', what, name, label, x.tolist(),
           y.tolist())
