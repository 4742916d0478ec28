"""Runs the CUDA ops of the repository on the emulated device (emu.cpp)."""

import ctypes
import os

import numpy as np

TYPES = {1: np.float32, 3: np.int32, 9: np.int64}
STATISTICS = ('launches', 'runs', 'events', 'threads', 'blocked', 'capped',
              'barriers', 'accesses', 'host_runs', 'outcomes', 'max_runs')
_library = None
_signatures = None


class DeviceFault(Exception):
  """The emulated device found an error in the op."""


def library():
  global _library
  if _library is None:
    path = os.environ['VERIF_EMU']
    lib = ctypes.CDLL(path)
    lib.emu_fault.restype = ctypes.c_char_p
    lib.emu_result_error.restype = ctypes.c_char_p
    lib.emu_signature.restype = ctypes.c_char_p
    lib.emu_result_dim.restype = ctypes.c_longlong
    lib.emu_result_data.restype = ctypes.c_void_p
    lib.emu_statistic.restype = ctypes.c_long
    lib.emu_configure.argtypes = [ctypes.c_int] * 6 + [ctypes.c_long] * 3
    lib.emu_attribute.argtypes = [ctypes.c_char_p, ctypes.c_int]
    lib.emu_input.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_void_p,
                              ctypes.c_void_p, ctypes.c_long]
    lib.emu_infer.restype = ctypes.c_char_p
    lib.emu_infer.argtypes = [ctypes.c_char_p, ctypes.c_void_p]
    lib.emu_run.argtypes = [ctypes.c_char_p]
    _library = lib
  return _library


def signatures():
  """name -> (inputs, outputs, attributes), as registered by the sources."""
  global _signatures
  if _signatures is None:
    _signatures = {}
    for i in range(100):
      text = library().emu_signature(i).decode()
      if not text:
        break
      name, ins, outs, attrs = text.split('|')
      split = lambda s: [(a.split(':')[0], int(a.split(':')[1]))
                         for a in s.split(',') if a]
      _signatures[name] = (split(ins), split(outs),
                           [a for a in attrs.split(',') if a])
  return _signatures


def infer_shapes(name, shapes, attributes):
  """The shapes of the outputs which the op declares: lists with None for
  unknown dimensions, or None."""
  flat = []
  for shape in shapes:
    flat += [-1] if shape is None else [len(shape)] + [
        -1 if n is None else n for n in shape]
  lib = library()
  lib.emu_begin()
  for key, value in attributes.items():
    lib.emu_attribute(key.encode(), int(value))
  text = lib.emu_infer(name.encode(), (ctypes.c_longlong * len(flat))(*flat))
  outputs = [None if '?' in t else
             [None if int(n) < 0 else int(n) for n in t.split(',') if n]
             for t in text.decode().split(';')[:-1]]
  return outputs + [None] * (len(signatures()[name][1]) - len(outputs))


def statistics():
  return {n: library().emu_statistic(i) for i, n in enumerate(STATISTICS)}


class Device:
  """A configuration of the emulated device.

  sms, blocks_per_sm: its size, which decides how many blocks a kernel gets.
  explore: all schedules up to equivalence; otherwise one schedule, in the
    canonical or (reverse) the opposite order.
  lazy: asynchronous work is done as late as allowed, otherwise at once.
  poison: the pattern of uninitialised memory, 0 or 1.
  """

  def __init__(self, sms=2, blocks_per_sm=1, explore=True, reverse=False,
               lazy=True, poison=0, max_runs=200000, max_outcomes=100000,
               clock=0):
    self.args = (sms, blocks_per_sm, int(explore), int(reverse), int(lazy),
                 poison, max_runs, max_outcomes, clock)

  def run(self, name, inputs, **attributes):
    """All distinct results, each a list of arrays or an error message."""
    lib = library()
    lib.emu_configure(*self.args)
    lib.emu_begin()
    if name not in signatures():
      raise DeviceFault('no op ' + name)
    for key, value in attributes.items():
      lib.emu_attribute(key.encode(), int(value))
    for value, (_, kind) in zip(inputs, signatures()[name][0]):
      value = np.array(value, TYPES[kind], order='C')
      shape = (ctypes.c_longlong * max(value.ndim, 1))(*value.shape)
      lib.emu_input(kind, value.ndim, shape,
                    value.ctypes.data_as(ctypes.c_void_p), value.nbytes)
    count = lib.emu_run(name.encode())
    if count < 0:
      text = lib.emu_fault().decode()
      if 'out of emulated memory' in text:
        # a limit of the emulation, which says nothing about the op
        raise MemoryError(text)
      raise DeviceFault(text)
    results = []
    for r in range(count):
      error = lib.emu_result_error(r).decode()
      if error:
        results.append(error)
        continue
      outputs = []
      for o in range(lib.emu_result_outputs(r)):
        shape = tuple(lib.emu_result_dim(r, o, d)
                      for d in range(lib.emu_result_dims(r, o)))
        kind = np.dtype(TYPES[lib.emu_result_type(r, o)])
        size = int(np.prod(shape, dtype=np.int64)) * kind.itemsize
        raw = ctypes.string_at(lib.emu_result_data(r, o), size) if size else b''
        outputs.append(np.frombuffer(raw, kind).reshape(shape).copy())
      results.append(outputs)
    return results
