"""C19: local pooling aggregates exactly the points within the radius."""

import numpy as np

from mc import conv, spaces
from mc.checks import c06
from mc.impl import cloud, layers, need_close, npy, pc


def cases(tier):
  small = {2: (spaces.AXIS4, 2), 3: (spaces.AXIS2, 2)}
  if tier == 'thorough':
    small = {2: (spaces.AXIS4, 3), 3: (spaces.AXIS3, 2), 4: (spaces.AXIS2, 2)}
  for d, (axis, nmax) in small.items():
    for size in (1, 6):
      for k, pack in enumerate(spaces.packs(spaces.clouds(d, axis, nmax),
                                            size)):
        for i, rad in enumerate(c06.RADII + [[1.75]]):
          for l, cen in enumerate(conv.CENTERS):
            if size == 1 and tier == 'quick' and (i + k + l) % 6:
              continue
            yield {'d': d, 'clouds': pack, 'radii': rad, 'centers': cen,
                   'pattern': (k + i + l) % 3, 'empty': (k + l) % 2}
  for d in (2, 3, 4, 5):
    for a, kind in enumerate(spaces.KINDS):
      for i, rad in enumerate(c06.RADII + [[3.0]]):
        for l, cen in enumerate(conv.CENTERS):
          yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                    spaces.structured(d, 'skewed')],
                 'radii': rad, 'centers': cen, 'pattern': (a + l) % 3,
                 'empty': 0}
  for d in (2, 3):
    for a, kind in enumerate(spaces.WIDE + spaces.HUGE):
      for l, cen in enumerate(conv.CENTERS):
        yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                  spaces.structured(d, 'skewed')],
               'radii': [1.125], 'centers': cen, 'pattern': (a + l) % 3,
               'empty': 0}


def check(case, rec):
  d = case['d']
  rad = c06.radii(case['radii'], d)
  full = np.array(rad * d if len(rad) == 1 else rad, np.float32)
  pts, ids = spaces.interleave(case['clouds'], case['pattern'])
  b = len(case['clouds']) + case['empty']
  cin = cloud(pts, ids, b)
  if case['centers'] == 'same':
    cpts, cids, cout = pts, ids, cin
  else:
    cpts, cids = spaces.interleave(
        conv.center_rows(case['centers'], case['clouds'], d),
        (case['pattern'] + 1) % 3)
    cout = cloud(cpts, cids, b)
  p, c = conv.decided_pairs(pts, ids, cpts, cids, full)
  feats = conv.feature_values(len(pts), 3) - 0.75
  feats[:, 2] = -np.abs(feats[:, 2]) - 0.5
  arg = full if len(rad) > 1 else rad[0]
  seen = np.unique(c)
  for name, op in (('MaxPooling', np.max), ('AveragePooling', np.mean)):
    got = npy(getattr(layers, name)()(feats, cin, cout, arg))
    want = np.array([op(feats[p[c == k]], axis=0) for k in seen])
    need_close(got.shape, (len(cpts), 3), '%s: shape' % name)
    if len(seen):
      need_close(got[seen], want, '%s, radius %s' % (name, full.tolist()))
    rec.op()
  rec.state((d, full.tolist(), pts.tolist(), ids.tolist(),
             list(zip(p.tolist(), c.tolist()))))
