"""C20: every level of a hierarchy is the sampling of the level before."""

import itertools

import numpy as np

from mc import ref, spaces
from mc.checks import c04, c06, c09, c10
from mc.conv import decided_pairs
from mc.engine import Skip, Violation
from mc.impl import cloud, need, need_equal, need_padded, npy, pc

# cell sizes of the levels
LISTS = [[[0.8], [1.7]], [[1.1, 0.7], [2.3]], [[0.6], [0.9, 1.9], [5.0]],
         [[3.2]], []]


def cases(tier):
  small = {2: (spaces.AXIS4, 2), 3: (spaces.AXIS2, 2)}
  if tier == 'thorough':
    small = {2: (spaces.AXIS4, 3), 3: (spaces.AXIS3, 2), 4: (spaces.AXIS2, 2)}
  n = 0
  for d, (axis, nmax) in small.items():
    for size in (1, 4):
      for k, pack in enumerate(spaces.packs(spaces.clouds(d, axis, nmax),
                                            size)):
        for j in range(len(LISTS)):
          n += 1
          if tier == 'quick' and size == 1 and (k + j) % 3:
            continue
          yield {'d': d, 'clouds': pack, 'list': j, 'mode': 'cell average',
                 'pattern': n % 3, 'empty': n % 2, 'form': n % 4,
                 'shape': n % 3}
  # all random choices; the number of schedules multiplies over the levels
  for size, nmax in ((1, 2), (2, 1), (2, 2)):
    for k, pack in enumerate(spaces.packs(spaces.clouds(2, spaces.AXIS3,
                                                        nmax), size)):
      for j in range(len(LISTS)):
        if size == 2 and nmax == 2 and (j == 2 or tier == 'quick' and
                                        (j < 2 or (k + j) % 2)):
          continue
        if size == 1 and tier == 'quick' and j < 3 and (k + j) % 2:
          continue
        yield {'d': 2, 'clouds': pack, 'list': j, 'mode': 'poisson',
               'pattern': k % 3, 'empty': k % 2, 'form': k % 4,
               'shape': k % 3}
  for d in (2, 3, 4):
    for kind in spaces.KINDS:
      for j in range(len(LISTS)):
        for mode in ('cell average', 'one schedule'):
          n += 1
          yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                    spaces.structured(d, 'skewed')],
                 'list': j, 'mode': mode, 'pattern': 1, 'empty': n % 2,
                 'form': n % 4, 'shape': n % 3}
    for a, kind in enumerate(spaces.WIDE if d < 4 else ()):
      for j in range(len(LISTS)):
        n += 1
        yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                  spaces.structured(d, 'skewed')],
               'list': j, 'mode': ('cell average', 'one schedule')[n % 2],
               'pattern': 1, 'empty': n % 2, 'form': n % 4, 'shape': n % 3}
  for d in (2, 3):
    yield {'d': d, 'clouds': [spaces.structured(d, 'skewed'),
                              spaces.structured(d, 'huge')],
           'list': d % len(LISTS), 'mode': 'cell average', 'pattern': d % 3,
           'empty': 0, 'form': d, 'shape': 1}
  for start in range(3):
    depth = 2 + (start == 1) + (tier != 'quick')
    for first in range(len(ops(2, [2, 2]))):
      for second in range(len(ops(2, [2, 2]))):
        yield {'history': [first, second], 'depth': depth, 'start': start}


def level_sizes(j, d):
  """Cell sizes per level; the last value is repeated for the remaining
  dimensions."""
  out = []
  for spec in LISTS[j]:
    out.append(spec + [spec[-1]] * (d - len(spec)))
  return out


def argument(j, form, d):
  out = []
  for k, spec in enumerate(LISTS[j]):
    if form == 3:
      spec = spec + [spec[-1]] * (d - len(spec))
    if len(spec) == 1 and form in (0, 2):
      out.append(spec[0])
    elif form == 1:
      out.append(np.array(spec, np.float32))
    else:
      out.append(list(spec))
  return out


def shapes(b, kind):
  return [None, [b], [b, 1]][kind] if b % 2 else [None, [b // 2, 2],
                                                  [1, b]][kind]


def rows_of(level, b):
  return [npy(level.get_points(e)) for e in range(b)]


def check_level(mode, prev, cur, lo, ext, cells, what):
  """prev, cur: rows per element; lo, ext: box of the first level."""
  num = np.maximum(np.ceil(ext / cells - 1e-6), 1)
  for e, (p, q) in enumerate(zip(prev, cur)):
    if not len(p):
      need(len(q) == 0, '%s: samples of an empty element', what)
      continue
    if mode == 'cell average':
      ids = np.zeros(len(p), np.int64)
      first, last = c04.possible_cells(p, ids, lo[e:e + 1], cells, num)
      # a last cell more or less does not matter inside of the box
      choices = [list(itertools.product(*[range(x, y + 1)
                                          for x, y in zip(f, l)]))
                 for f, l in zip(first, last)]
      if np.prod([float(len(c)) for c in choices]) > 512:
        continue
      for assignment in itertools.product(*choices):
        fits, means = c10.match(q, p, assignment)
        if fits:
          break
      else:
        raise Violation(
            '%s, element %d, points %s, cells %s from %s: %s instead of %s' %
            (what, e, p.tolist(), cells.tolist(), lo[e].tolist(), q.tolist(),
             [m.tolist() for m in means]))
    else:
      z = np.zeros
      decided_pairs(p, z(len(p)), p, z(len(p)), cells)
      d = ref.scaled_distances(p, q, cells)
      need(len(q) and np.all(d.min(1) == 0), '%s: samples %s of %s', what,
           q.tolist(), p.tolist())
      need(np.all(d.min(0) < 1), '%s: samples %s do not cover %s', what,
           q.tolist(), p.tolist())
      own = ref.scaled_distances(q, q, cells) + 10 * np.eye(len(q))
      need(own.min() >= 1, '%s: samples %s closer than the radius', what,
           q.tolist())


def check_hoods(h, levels, sizes, what, rec):
  hoods, back = h.get_neighborhood(), h.get_neighborhood(transposed=True)
  need(len(hoods) == len(levels) - 1 and len(back) == len(levels) - 1,
       '%s: %d neighborhoods of %d levels', what, len(hoods), len(levels))
  for i, cells in enumerate(sizes):
    cells = np.array(cells, np.float32)
    a, o = levels[i], levels[i + 1]
    ap, ai = npy(a._points), npy(a._batch_ids)
    op, oi = npy(o._points), npy(o._batch_ids)
    for nb in (hoods[i], h.get_neighborhood(i),
               h.get_neighborhood(i - len(sizes))):
      c06.compare(nb._original_neigh_ids, nb._samples_neigh_ranges, ap, ai,
                  op, oi, cells, '%s: neighborhood %d' % (what, i))
    for nb in (back[i], h.get_neighborhood(i, transposed=True)):
      c06.compare(nb._original_neigh_ids, nb._samples_neigh_ranges, op, oi,
                  ap, ai, cells, '%s: transposed neighborhood %d' % (what, i))
    rec.op(5)


def check(case, rec):
  if 'history' in case:
    return check_history(case, rec)
  d, pack = case['d'], case['clouds']
  pts, ids = spaces.interleave(pack, case['pattern'])
  b = len(pack) + case['empty']
  shape = shapes(b, case['shape'])
  sizes = level_sizes(case['list'], d)
  out_shape = shape or [b]

  def run(chooser=None):
    cl = cloud(pts, ids, b)
    if shape is not None:
      cl.set_batch_shape(shape)
    box = cl.get_AABB()
    lo, hi = npy(box._aabb_min), npy(box._aabb_max)
    present = np.unique(ids)
    ext = (hi[present].astype(np.float64) - lo[present]).max(0)
    mode = case['mode'] if case['mode'] == 'cell average' else 'poisson'
    arg = argument(case['list'], case['form'], d)
    h = pc.PointHierarchy(cl, arg, mode) if case['form'] != 2 or \
        mode != 'poisson' else pc.PointHierarchy(cl, arg)
    rec.op()
    what = 'hierarchy %s of %s' % (sizes, pts.tolist())
    need(len(h) == len(sizes) + 1, '%s: %d levels', what, len(h))
    levels = [h[i] for i in range(len(h))]
    rows = [rows_of(level, b) for level in levels]
    want = ref.split(pts, ids, b)
    for e in range(b):
      need_equal(rows[0][e], want[e], '%s: level 0' % what)
    for i, cells in enumerate(sizes):
      check_level(mode, rows[i], rows[i + 1], lo, ext,
                  np.array(cells, np.float32), '%s: level %d' % (what, i + 1))
    got = h.get_points()
    counts = h.get_sizes()
    single = [h.get_points(e) for e in range(b)]
    need(len(got) == len(counts) == len(levels), '%s: accessors', what)
    for i in range(len(levels)):
      n = [len(r) for r in rows[i]]
      need_padded(got[i], rows[i], out_shape, d, {max(n)},
                  '%s: points of level %d' % (what, i))
      need_equal(counts[i], np.reshape(n, out_shape),
                 '%s: sizes of level %d' % (what, i))
      for e in range(b):
        need_equal(single[e][i], rows[i][e], '%s: element %d' % (what, e))
    check_hoods(h, levels, sizes, what, rec)
    rec.op(3 + b)
    rec.state((d, case['list'], shape, [[np.sort(r, 0).tolist() for r in x]
                                        for x in rows]))

  if case['mode'] == 'poisson':
    rec.trace(c09.explore(run) - 1)
  else:
    run()


# --- histories --------------------------------------------------------------


def ops(levels, shape):
  b = int(np.prod(shape))
  out = [('points',), ('points', None, 5), ('sizes',), ('hoods',), ('len',)]
  out += [('points', e) for e in (0, b - 1)]
  out += [('level', i) for i in (0, -1)]
  out += [('shape', s) for s in ([b], [b, 1], [1, b], None)]
  out += [('bad', [b + 1])]
  return out


def check_history(case, rec):
  alphabet = ops(2, [2, 2])
  rest = case['depth'] - len(case['history'])
  for tail in itertools.product(range(len(alphabet)), repeat=rest):
    run_history(case, [alphabet[k] for k in list(case['history']) +
                       list(tail)], rec)


_SCENE = {}


def scene(start):
  rows = [[[0.0, 0.0], [0.25, 0.125], [2.0, 0.5]], [[1.0, 1.0]], [],
          [[0.5, 0.5], [3.0, 0.75]]]
  pts, ids = spaces.interleave(rows, 1)
  cl = cloud(pts, ids, 4)
  shape = [[4], [2, 2], [4]][start]
  if start == 1:
    cl.set_batch_shape([2, 2])
  elif start == 2:
    cl = pc.PointCloud(ref.pad([np.array(r, np.float32).reshape(-1, 2)
                                for r in rows], [4], 3, 2),
                       sizes=[3, 1, 0, 2])
    pts, ids = npy(cl._points), npy(cl._batch_ids)
  return pc.PointHierarchy(cl, [0.8, 1.7], 'cell average'), pts, ids, shape


def run_history(case, history, rec):
  h, pts, ids, shape = scene(case['start'])
  if not _SCENE:
    # rows per level, checked in the other cases
    for s in range(3):
      fresh = scene(s)[0]
      _SCENE[s] = [rows_of(fresh[i], 4) for i in range(3)]
  rows = _SCENE[case['start']]
  what = 'after %s' % history
  for op in history:
    rec.op()
    if op[0] == 'points' and len(op) == 2:
      for got, want in zip(h.get_points(op[1]), rows):
        need_equal(got, want[op[1]], '%s: points' % what)
    elif op[0] == 'points':
      width = op[2] if len(op) == 3 else None
      for i, (got, want) in enumerate(zip(
          h.get_points(max_num_points=width) if width else h.get_points(),
          rows)):
        n = max(len(r) for r in want)
        need_padded(got, want, shape, 2, {width or n},
                    '%s: points of level %d' % (what, i))
    elif op[0] == 'sizes':
      for got, want in zip(h.get_sizes(), rows):
        need_equal(got, np.reshape([len(r) for r in want], shape),
                   '%s: sizes' % what)
    elif op[0] == 'hoods':
      check_hoods(h, [h[i] for i in range(3)], [[0.8] * 2, [1.7] * 2], what,
                  rec)
    elif op[0] == 'len':
      need(len(h) == 3, '%s: %d levels', what, len(h))
    elif op[0] == 'level':
      want = rows[op[1]]
      need_padded(h[op[1]].get_points(), want, shape, 2,
                  {max(len(r) for r in want)}, '%s: level' % what)
    elif op[0] == 'shape':
      h.set_batch_shape(op[1])
      shape = op[1] or [4]
    else:
      try:
        h.set_batch_shape(op[1])
      except Exception:
        continue
      need(False, '%s: batch shape %s accepted', what, op[1])
  rec.trace()
  rec.state((case['start'], history))
