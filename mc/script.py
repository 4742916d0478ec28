"""Runs the ModelNet scripts up to the training, in a scratch directory."""

import ast
import contextlib
import io as std_io
import json
import os
import sys
import time
import types
from unittest import mock

import numpy as np
import tensorflow as tf

from mc.engine import REPO

SCRIPTS = {'full': ('modelnet40.py', 10000),
           'small': ('modelnet40_small.py', 1024)}


class Trained(BaseException):
  """The script begins to build a network."""


def value(model, line, axis):
  """Coordinates, exact in single precision, which name model and line."""
  return [line % 128 + model * 128, line // 128 - 40,
          0.25 * ((line * 7 + model) % 64) - 8][axis]


def expected(model, count):
  line = np.arange(count)
  return np.stack([value(model, line, a) for a in range(3)], axis=1)


def write_dataset(root, train, test, lines):
  """train, test: class index per model."""
  names = ['class_%c' % (97 + (5 * k) % 7) for k in range(5)] + ['night_stand']
  os.makedirs(root, exist_ok=True)
  with open(os.path.join(root, 'modelnet40_shape_names.txt'), 'w') as f:
    f.write('\n'.join(names) + '\n')
  k = 0
  for part, labels in (('train', train), ('test', test)):
    with open(os.path.join(root, 'modelnet40_%s.txt' % part), 'w') as f:
      for label in labels:
        model = '%s_%04d' % (names[label], k + 1)
        f.write(model + '\n')
        os.makedirs(os.path.join(root, names[label]), exist_ok=True)
        rows = expected(k, lines)
        with open(os.path.join(root, names[label], model + '.txt'), 'w') as g:
          g.write(''.join('%g,%g,%g,0,0,1\n' % tuple(r) for r in rows))
        k += 1


def run(which, data_dir, cache_dir):
  """Namespace of the script when it starts to build the network."""
  from pylib.pc import layers
  path = os.path.join(REPO, SCRIPTS[which][0])
  with open(path) as f:
    code = compile(f.read(), path, 'exec')
  stub = types.ModuleType('data_paths')
  stub.data_dir = data_dir + '/'
  stub.hdf5_tmp_dir = cache_dir
  # a module of its own, as classes look up their module
  space = types.ModuleType('modelnet_script_under_test')
  space.__file__ = path

  def stop(*args, **kwargs):
    raise Trained()

  names = ['MCConv', 'KPConv', 'PointConv', 'Conv1x1']
  with contextlib.ExitStack() as stack:
    stack.enter_context(mock.patch.dict(
        sys.modules, {'data_paths': stub, space.__name__: space}))
    for name in names:
      stack.enter_context(mock.patch.object(
          getattr(layers, name), '__init__', stop))
    stack.enter_context(contextlib.redirect_stdout(std_io.StringIO()))
    try:
      exec(code, space.__dict__)
    except Trained:
      pass
  return space.__dict__


def notebook(lines):
  """Classes and functions of the ModelNet notebook."""
  from pylib import pc
  from pylib.pc import layers
  path = os.path.join(REPO, 'pylib/notebooks/ModelNet40.ipynb')
  with open(path) as f:
    cells = json.load(f)['cells']
  space = types.ModuleType('modelnet_notebook_under_test')
  space.__dict__.update(
      np=np, tf=tf, pc=pc, layers=layers, os=os, time=time,
      points_per_file=lines,
      loss_function=tf.keras.losses.SparseCategoricalCrossentropy())
  with mock.patch.dict(sys.modules, {space.__name__: space}):
    for cell in cells:
      if cell['cell_type'] != 'code':
        continue
      source = ''.join(line for line in cell['source']
                       if not line.lstrip().startswith(('!', '%')))
      for node in ast.parse(source).body:
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
          exec(compile(ast.Module([node], []), path, 'exec'), space.__dict__)
  return space.__dict__


def handed_over(space):
  """Points and labels of the training and the test set."""
  out = {}
  for k, v in space.items():
    if isinstance(v, tf.keras.utils.Sequence) and hasattr(v, 'points'):
      out['test' if 'test' in k else 'train'] = (
          np.asarray(v.points), np.asarray(v.labels))
  for part in ('train', 'test'):
    if part not in out and part + '_data_points' in space:
      out[part] = (np.asarray(space[part + '_data_points']),
                   np.asarray(space[part + '_labels']))
  return out
