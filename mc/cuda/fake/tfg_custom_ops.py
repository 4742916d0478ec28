"""Stands for the compiled custom ops package: the same functions with the same
signatures as the op loader of TensorFlow would give, run by the sources of the
ops on the emulated device."""

import threading

import numpy as np
import tensorflow as tf
from tensorflow.python.framework import ops as _framework

from mc.cuda import ops as _ops

_KINDS = {1: tf.float32, 3: tf.int32, 9: tf.int64}
_lock = threading.Lock()
device = _ops.Device(sms=2, blocks_per_sm=2, explore=False)


def configure(**config):
  global device
  device = _ops.Device(**config)


class _Op:
  """What a gradient function gets to see of the op."""

  def __init__(self, inputs, attributes):
    self.inputs, self._attributes = inputs, attributes

  def get_attr(self, name):
    return self._attributes[name]


def _run(name, attributes, kinds, values):
  with _lock:
    results = device.run(name, [np.asarray(v) for v in values], **attributes)
  if isinstance(results[0], str):
    raise ValueError('%s: %s' % (name, results[0]))
  return [np.array(r, k.as_numpy_dtype) for r, k in zip(results[0], kinds)]


def _function(name, signature):
  ins, outs, attrs = signature
  kinds = [_KINDS[k] for _, k in outs]

  def op(*args, **kwargs):
    names = [n for n, _ in ins] + attrs
    kwargs.pop('name', None)
    given = dict(zip(names, args))
    if len(args) > len(names) or set(given) & set(kwargs) or \
        set(given) | set(kwargs) != set(names):
      raise TypeError('%s() takes the arguments %s' % (name, names))
    given.update(kwargs)
    attributes = {}
    for a in attrs:
      if isinstance(given[a], (str, float)) or \
          tf.is_tensor(given[a]) and not hasattr(given[a], 'numpy'):
        raise TypeError("Expected int for argument '%s' not %r" % (
            a, given[a]))
      attributes[a] = int(given[a])
    tensors = []
    for n, k in ins:
      x = given[n]
      if isinstance(x, (tf.Tensor, tf.Variable)):
        x = tf.convert_to_tensor(x)
        if x.dtype != _KINDS[k]:
          raise TypeError('%s: %s is %s, not %s' % (
              name, n, x.dtype, _KINDS[k]))
      else:
        x = tf.convert_to_tensor(x, dtype=_KINDS[k])
      tensors.append(x)

    @tf.custom_gradient
    def call(*inputs):
      if tf.executing_eagerly():
        results = [tf.constant(r) for r in _run(
            name, attributes, kinds, [x.numpy() for x in inputs])]
      elif len(kinds) > 1:
        results = tf.numpy_function(
            lambda *v: _run(name, attributes, kinds, v), inputs, kinds)
      else:
        results = [tf.numpy_function(
            lambda *v: _run(name, attributes, kinds, v)[0], inputs, kinds[0])]
      if not tf.executing_eagerly():
        with _lock:
          shapes = _ops.infer_shapes(
              name, [None if x.shape.rank is None else x.shape.as_list()
                     for x in inputs], attributes)
        for result, shape in zip(results, shapes):
          result.set_shape(shape)

      def gradient(*upstream):
        function = _framework.gradient_registry.lookup(name)
        if function is None:
          return [None] * len(inputs)
        return function(_Op(inputs, attributes), *upstream)
      return (results if len(results) > 1 else results[0]), gradient
    return call(*tensors)
  return op


def _snake(name):
  return ''.join('_' + c.lower() if c.isupper() else c for c in name)[1:]


for _name, _signature in _ops.signatures().items():
  globals()[_snake(_name)] = _function(_name, _signature)
