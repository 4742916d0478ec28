"""C08: transposed neighborhoods and cached densities stay consistent."""

import itertools
from collections import Counter

import numpy as np

from mc import ref, spaces
from mc.checks import c04, c06
from mc.conv import decided_pairs
from mc.impl import need, need_close, need_equal, npy, pc

# operations on the current neighborhood; T: go to its transpose, B: go back
# to the first one
OPS = {
    'T': None, 'B': None,
    'c1': ('compute', {'bandwidth': 0.25}),
    'c2': ('compute', {'bandwidth': 0.5, 'normalize': True}),
    'c0': ('compute', {'mode': 'no_pdf'}),
    'g': ('get', {}),
    'g2': ('get', {'bandwidth': 0.75}),
    'g3': ('get', {'mode': 'no_pdf', 'normalize': True}),
}
DEFAULT = 0.2


def cases(tier):
  for d, axis, nmax in ((2, spaces.AXIS3, 2), (3, spaces.AXIS2, 2)):
    size = 4
    for k, pack in enumerate(spaces.packs(spaces.clouds(d, axis, nmax),
                                          size)):
      for rad in c06.RADII:
        for cen in c06.CENTERS:
          yield {'kind': 'relation', 'd': d, 'clouds': pack, 'radii': rad,
                 'mult': 1.0, 'centers': cen, 'pattern': k % 3, 'empty': k % 2}
  for kind in ('skewed', 'line', 'dups', 'lattice'):
    for d in (2, 3, 4):
      for cen in c06.CENTERS:
        yield {'kind': 'relation', 'd': d, 'clouds': [
            spaces.structured(d, kind), spaces.structured(d, 'skewed')],
            'radii': [1.125], 'mult': 1.0, 'centers': cen, 'pattern': 1,
            'empty': 0}
  for kind in spaces.WIDE:
    for d in (2, 3):
      for l, cen in enumerate(c06.CENTERS):
        yield {'kind': 'relation', 'd': d, 'clouds': [
            spaces.structured(d, kind), spaces.structured(d, 'skewed')],
            'radii': [1.125], 'mult': 1.0, 'centers': cen, 'pattern': l % 3,
            'empty': 0}
  for a, kind in enumerate(spaces.HUGE[:1]):
    for l in (0, 1):
      d = 2 + (a + l) % 2
      yield {'kind': 'relation', 'd': d, 'clouds': [
          spaces.structured(d, kind), spaces.structured(d, 'skewed')],
          'radii': [0.75], 'mult': 1.0, 'centers': c06.CENTERS[l],
          'pattern': l, 'empty': 0}
  # larger cells, and grids with another bounding box
  n = 0
  for kind in ('skewed', 'line', 'dups', 'lattice'):
    for d in (2, 3, 4):
      for cen in c06.CENTERS:
        for box in c04.BOXES:
          for mult in (1.0, 1.5) if box else (1.5, 4.0):
            n += 1
            if tier == 'quick' and n % 2:
              continue
            yield {'kind': 'relation', 'd': d, 'clouds': [
                spaces.structured(d, 'skewed'), spaces.structured(d, kind)],
                'radii': c06.RADII[n // 2 % 4], 'mult': mult, 'centers': cen,
                'pattern': n % 3, 'empty': n // 6 % 2, 'box': box}
  depth = {'self': 3, 'other': 4, 'sparse': 3} if tier == 'quick' else \
      {'self': 4, 'other': 5, 'sparse': 4}
  base = [[0.0, 0.0], [0.5, 0.25], [1.0, 0.0]]
  other = [[0.25, 0.5], [3.0, 3.0]]
  scenes = [('self', 1.0), ('other', 1.0), ('sparse', 0.75)]
  for cen, rad in scenes:
    for first in OPS:
      for second in OPS:
        yield {'kind': 'history', 'd': 2, 'clouds': [base, other],
               'radii': [rad], 'mult': 1.0, 'centers': cen, 'pattern': 1,
               'empty': 0, 'prefix': [first, second], 'depth': depth[cen]}


def labelled(pairs, pts, ids, cpts, cids, swap=False):
  """Relation on positions: independent of the numbering of the points."""
  out = Counter()
  for p, c in npy(pairs):
    a = (int(ids[p]), tuple(pts[p].tolist()))
    b = (int(cids[c]), tuple(cpts[c].tolist()))
    out[(b, a) if swap else (a, b)] += 1
  return out


def check(case, rec):
  if case['kind'] == 'history':
    return check_history(case, rec)
  cl, grid, rad, full, centers, pts, ids, b = c06.make(case)
  nb = pc.Neighborhood(grid, rad if len(rad) > 1 else rad[0], centers)
  before = npy(nb._original_neigh_ids).copy()
  tr = nb.transpose()
  rec.op(3)
  spts, sids = npy(grid._sorted_points), npy(grid._sorted_batch_ids)
  cpts, cids = (spts, sids) if centers is None else \
      (npy(centers._points), npy(centers._batch_ids))
  tcl = tr._point_cloud_sampled
  tcen = npy(tcl._points), npy(tcl._batch_ids)
  tin = tr._grid._point_cloud
  tpts, tids = npy(tin._points), npy(tin._batch_ids)
  want = labelled(nb._original_neigh_ids, pts, ids, cpts, cids, swap=True)
  got = labelled(tr._original_neigh_ids, tpts, tids, *tcen)
  decided_pairs(pts, ids, cpts, cids, full)
  need(got == want, 'transpose relates\n%s\ninstead of\n%s', sorted(got),
       sorted(want))
  if centers is not None:
    # the transpose is numbered like the two clouds
    need_equal(tcen[0], pts, 'centers of the transpose')
    need_equal(tpts, cpts, 'points of the transpose')
    c06.compare(tr._original_neigh_ids, tr._samples_neigh_ranges, cpts, cids,
                pts, ids, full, 'transpose')
    c06.compare(tr._neighbors, tr._samples_neigh_ranges,
                npy(tr._grid._sorted_points),
                npy(tr._grid._sorted_batch_ids), pts, ids, full,
                'transpose, sorted ids')
    back = tr.transpose()
    c06.compare(back._original_neigh_ids, back._samples_neigh_ranges, pts,
                ids, cpts, cids, full, 'transpose of the transpose')
    rec.op()
  need_equal(nb._original_neigh_ids, before, 'table after transposing')
  rec.state((case['d'], full.tolist(), sorted(want.items())))


def arguments(kw):
  kw = dict(kw)
  if 'mode' in kw:
    kw['mode'] = pc.KDEMode[kw['mode']]
  return kw


def expected(nb, kw, tables):
  """Density per pair of a computation with arguments kw."""
  cl = nb._grid._point_cloud
  pairs = tables[id(nb)]
  pts, ids = npy(cl._points), npy(cl._batch_ids)
  if kw.get('mode') == 'no_pdf':
    out = np.ones(len(pairs))
  else:
    p, c = decided_pairs(pts, ids, pts, ids, npy(nb._radii))
    dens = ref.kde(pts, ids, npy(nb._radii),
                   [kw.get('bandwidth', DEFAULT)] * 2,
                   set(zip(p.tolist(), c.tolist())))
    out = dens[pairs[:, 0]]
  if kw.get('normalize'):
    count = Counter(pairs[:, 1].tolist())
    out = out / np.array([count[c] for c in pairs[:, 1]])
  return out


def check_history(case, rec):
  rest = case['depth'] - len(case['prefix'])
  for tail in itertools.product(OPS, repeat=rest):
    run(case, case['prefix'] + list(tail), rec)


def run(case, ops, rec):
  cl, grid, rad, full, centers, pts, ids, b = c06.make(case)
  first = pc.Neighborhood(grid, rad[0], centers)
  cur = first
  keep = [first]  # ids are not reused
  tables = {id(first): npy(first._original_neigh_ids).copy()}
  model = {}
  for op in ops:
    rec.op()
    if op == 'T':
      cur = cur.transpose()
      keep.append(cur)
      tables.setdefault(id(cur), npy(cur._original_neigh_ids).copy())
      continue
    if op == 'B':
      cur = first
      continue
    what, kw = OPS[op]
    if what == 'compute':
      cur.compute_pdf(**arguments(kw))
      model[id(cur)] = expected(cur, kw, tables)
    else:
      got = cur.get_pdf(**arguments(kw))
      if id(cur) not in model:
        model[id(cur)] = expected(cur, kw, tables)
      need_close(got, model[id(cur)], 'density after %s' % ops)
  for nb in keep:
    need_equal(nb._original_neigh_ids, tables[id(nb)],
               'neighbor table after %s' % ops)
    if id(nb) in model:
      need_close(nb.get_pdf(), model[id(nb)], 'density at the end of %s' % ops)
  rec.trace()
  rec.state((case['centers'], [(t.tolist(), id(nb) in model and
                                np.round(model[id(nb)], 4).tolist())
                               for nb in keep
                               for t in [tables[id(nb)]]], ops[-1]))
