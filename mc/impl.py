"""Access to the code under test, and helpers to look at it."""

import numpy as np
import tensorflow as tf

from pylib import pc
from pylib.pc import layers
from pylib.pc import custom_ops  # noqa: F401

from mc.engine import Violation


def npy(x):
  if isinstance(x, tf.IndexedSlices):
    x = tf.convert_to_tensor(x)
  return x.numpy() if hasattr(x, 'numpy') else np.asarray(x)


def need(cond, msg, *args):
  if not cond:
    raise Violation(msg % args if args else msg)


def need_equal(got, want, what):
  got, want = npy(got), np.asarray(want)
  if got.shape != want.shape:
    raise Violation('%s: shape %s instead of %s\ngot %s\nwant %s' % (
        what, got.shape, want.shape, got.tolist(), want.tolist()))
  if not np.array_equal(got, want):
    raise Violation('%s:\ngot  %s\nwant %s' % (
        what, got.tolist(), want.tolist()))


def need_close(got, want, what, rtol=1e-4, atol=1e-5):
  got, want = npy(got), np.asarray(want)
  if got.shape != want.shape:
    raise Violation('%s: shape %s instead of %s' % (
        what, got.shape, want.shape))
  if not np.all(np.isfinite(got) == np.isfinite(want)) or \
      not np.allclose(got, want, rtol=rtol, atol=atol, equal_nan=True):
    raise Violation('%s:\ngot  %s\nwant %s' % (
        what, got.tolist(), want.tolist()))


def cloud(points, ids, batch_size=None):
  return pc.PointCloud(np.asarray(points, np.float32),
                       batch_ids=np.asarray(ids, np.int32),
                       batch_size=batch_size)


def canonical(obj, depth=3):
  """Canonical form of everything an object holds; used as state in explicit
  state searches. Generic on purpose: it names no attribute of the code."""
  if isinstance(obj, (tf.Tensor, tf.Variable)):
    arr = obj.numpy()
    return ('t', arr.shape, str(arr.dtype), arr.tobytes())
  if isinstance(obj, np.ndarray):
    return ('n', obj.shape, str(obj.dtype), obj.tobytes())
  if obj is None or isinstance(obj, (int, float, str, bool, bytes)):
    return obj
  if isinstance(obj, (list, tuple)):
    return tuple(canonical(o, depth - 1) for o in obj) if depth else '...'
  if isinstance(obj, dict):
    if not depth:
      return '...'
    return tuple((str(k), canonical(obj[k], depth - 1))
                 for k in sorted(obj, key=str))
  if callable(obj) and hasattr(obj, '__code__'):
    cells = getattr(obj, '__closure__', None) or ()
    if not depth:
      return '...'
    vals = []
    for c in cells:
      try:
        v = c.cell_contents
      except ValueError:
        v = None
      vals.append(canonical(v, depth - 1) if not hasattr(v, '__dict__')
                  or callable(v) else type(v).__name__)
    return ('f', obj.__code__.co_name, obj.__code__.co_firstlineno,
            tuple(vals))
  if hasattr(obj, '__dict__') and depth:
    return (type(obj).__name__, canonical(vars(obj), depth - 1))
  return type(obj).__name__


def need_padded(got, rows, batch_shape, dims, widths, what):
  """A zero padded tensor of one of the allowed widths."""
  from mc import ref
  got = npy(got)
  need(got.ndim == len(batch_shape) + 2 and got.shape[-2] in widths,
       '%s: shape %s, for batch shape %s and widths %s', what, got.shape,
       list(batch_shape), list(widths))
  need_equal(got, ref.pad(rows, batch_shape, got.shape[-2], dims), what)
