"""C36: the CUDA ops which sum up features of neighborhoods and their
derivatives, under all schedules."""

import itertools

import numpy as np

from mc.cuda import space
from mc.engine import Violation

BASIS = [8, 16, 32, 64]


def cases(tier):
  thorough = tier == 'thorough'
  # all neighborhoods of 2 centers among 2 points, and of 1 to 3 centers with
  # up to 3 (4) neighbors
  for basis, channels in itertools.product(
      BASIS, [1, 2, 3, 5, 7, 8, 16, 24, 32, 64, 136] if thorough
      else [1, 3, 7, 8, 24, 40]):
    yield {'kind': 'small', 'basis': basis, 'channels': channels}
    for n, m, size in ((20, 40, 3), (70, 33, 9), (5, 130, 2)) + (
        ((300, 500, 17),) if thorough else ()):
      yield {'kind': 'many', 'basis': basis, 'channels': channels, 'n': n,
             'm': m, 'size': size}


def check_proj(rec, configs, basis, features, neighbors, ends, what):
  m = len(ends)
  p, c = neighbors[:, 0], neighbors[:, 1]
  b64, f64 = basis.astype(np.float64), features.astype(np.float64)
  want = np.zeros([m, features.shape[1], basis.shape[1]])
  np.add.at(want, c, f64[p][:, :, None] * b64[:, None, :])
  size = np.zeros(want.shape)
  np.add.at(size, c, np.abs(f64[p][:, :, None] * b64[:, None, :]))
  upstream = ((np.arange(want.size) * 7 % 11) / 8 - 0.625).reshape(want.shape)
  want_b = np.einsum('mck,mc->mk', upstream[c], f64[p])
  want_f = np.zeros(features.shape)
  contribution = np.einsum('mck,mk->mc', upstream[c], b64)
  np.add.at(want_f, p, contribution)

  def close(got, value, scale, text, config):
    if got.shape != value.shape or \
        not np.allclose(got, value, rtol=1e-4, atol=2e-5 * (1 + scale)):
      raise Violation(
          '%s, %s on %s: %d basis functions, %d channels, neighbors %s\n'
          'got  %s\nwant %s' % (
              what, text, config, basis.shape[1], features.shape[1],
              neighbors.tolist()[:30], got.ravel().tolist()[:30],
              value.ravel().tolist()[:30]))
  inputs = [basis, features, neighbors, ends]
  for config, (got,) in space.succeeds(rec, configs, 'BasisProj', inputs):
    close(got, want, size.max(initial=0), 'features', config)
  for config, (gb, gf) in space.succeeds(
      rec, configs, 'BasisProjGrads', inputs + [upstream]):
    close(gb, want_b, features.shape[1], 'derivative by the basis', config)
    close(gf, want_f, basis.shape[1], 'derivative by the features', config)


def values(shape, seed):
  n = int(np.prod(shape))
  i = np.arange(n) + seed
  return (((i * 7919 + 31 * (i // 7)) % 64) / 32 - 0.984375).reshape(
      shape).astype(np.float32)


def check(case, rec):
  k, ch = case['basis'], case['channels']
  if case['kind'] == 'small':
    lists = [()] + [c for r in (1, 2) for c in
                    itertools.product(range(2), repeat=r)]
    structures = list(itertools.product(lists, repeat=2)) + [
        (a,) for a in itertools.combinations_with_replacement(range(3), 3)] + [
            ((0, 1), (), (1, 1), (2,)), ((), (), (0,)), ((2, 1, 0, 1),)]
    for i, structure in enumerate(structures):
      if ch > 8 and k > 8 and i % 3:
        continue
      rows = [(p, c) for c, mine in enumerate(structure) for p in mine]
      neighbors = np.array(rows, np.int32).reshape(-1, 2)
      ends = np.cumsum([len(s) for s in structure]).astype(np.int32)
      check_proj(rec, space.ALL[:1] + space.FIXED[1:],
                 values((len(rows), k), i), values((3, ch), i + 5), neighbors,
                 ends, 'structure %s' % (structure,))
    return
  n, m = case['n'], case['m']
  sizes = [(c * c * 5 + c) % (case['size'] + 1) for c in range(m)]
  rows = [((c * 11 + j * 3) % n, c) for c, s in enumerate(sizes)
          for j in range(s)]
  check_proj(rec, space.FIXED if ch > 8 and k > 16 else space.WIDE,
             values((len(rows), k), 1), values((n, ch), 2),
             np.array(rows, np.int32), np.cumsum(sizes).astype(np.int32),
             'many')
