"""C26: an interrupted data conversion never corrupts later runs.

Explicit-state exploration of the directory the scripts convert the data set
into. A state is the content of this directory; a transition is a run of the
real script which is interrupted after any of its file operations, with the
last write torn at several lengths. Runs are recorded by a preloaded library
(mc/fstrace.c), the states after an interruption are reconstructed from the
record, and the complete record has to reproduce the real directory."""

import atexit
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from mc import script
from mc.engine import Skip, VERIF, Violation
from mc.fsrun import summary

TRAIN, TEST = [0, 5], [1]
CASE_TIMEOUT = 800
MAX_OPS = 400
# interruptions in sequence
DEPTH = {'quick': 2, 'thorough': 4}
_CTX = {}


def cases(tier):
  for k in range(MAX_OPS):
    for which, start in (('full', 'absent'), ('small', 'empty'),
                         ('full', 'empty'), ('full', 'other'),
                         ('small', 'other')):
      yield {'script': which, 'start': start, 'op': k, 'depth': DEPTH[tier]}


class Context:
  """Scratch directory, data sets and the server process of a worker."""

  def __init__(self):
    self.root = os.path.realpath(tempfile.mkdtemp(prefix='c26'))
    atexit.register(self.close)
    lib = os.path.join(self.root, 'fstrace.so')
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', lib,
                    os.path.join(VERIF, 'mc', 'fstrace.c'), '-ldl'],
                   check=True)
    for which, (_, lines) in script.SCRIPTS.items():
      script.write_dataset(os.path.join(self.root, 'data_' + which), TRAIN,
                           TEST, lines + 2)
    self.cache = os.path.join(self.root, 'cache')
    self.log = os.path.join(self.root, 'log')
    open(self.log, 'w').close()
    env = dict(os.environ)
    env.update({'LD_PRELOAD': lib, 'MC_TRACE_LOG': self.log,
                'MC_TRACE_DIR': self.cache})
    self.server = subprocess.Popen(
        [sys.executable, '-W', 'ignore', '-m', 'mc.fsrun'], cwd=VERIF,
        env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
        stderr=subprocess.DEVNULL, text=True)
    self.first = {}
    self.done = {}

  def close(self):
    self.server.kill()
    shutil.rmtree(self.root, ignore_errors=True)

  def run(self, which, state):
    """Runs the script on a state; returns its answer, the operations it
    made, and the state it leaves."""
    key = (which, freeze(state))
    if key not in self.done:
      restore(state, self.cache)
      self.server.stdin.write(json.dumps(
          [which, os.path.join(self.root, 'data_' + which), self.cache]) +
          '\n')
      self.server.stdin.flush()
      line = self.server.stdout.readline()
      if not line:
        raise Violation('the script ended the process with %s' %
                        self.server.wait())
      ops = parse(self.log, self.cache)
      self.done[key] = json.loads(line), ops, snapshot(self.cache)
    return self.done[key]


def context():
  if 'x' not in _CTX:
    _CTX['x'] = Context()
  return _CTX['x']


# --- states: None if the directory does not exist, else {name: bytes}, with
# None as the content of a directory


def freeze(state):
  if state is None:
    return None
  return tuple(sorted(
      (k, None if v is None else hashlib.sha256(v).hexdigest())
      for k, v in state.items()))


def restore(state, path):
  shutil.rmtree(path, ignore_errors=True)
  if state is None:
    return
  os.mkdir(path)
  for name in sorted(state):
    target = os.path.join(path, name)
    if state[name] is None:
      os.mkdir(target)
    else:
      with open(target, 'wb') as f:
        f.write(state[name])


def snapshot(path):
  if not os.path.isdir(path):
    return None
  out = {}
  for folder, dirs, files in os.walk(path):
    for d in dirs:
      out[os.path.relpath(os.path.join(folder, d), path)] = None
    for name in files:
      full = os.path.join(folder, name)
      with open(full, 'rb') as f:
        out[os.path.relpath(full, path)] = f.read()
  return out


def parse(log, cache):
  with open(log, 'rb') as f:
    raw = f.read()
  ops, at = [], 0
  while at < len(raw):
    end = raw.index(b'\n', at)
    kind, number, length, path = raw[at:end].split(b' ', 3)
    data = raw[end + 1:end + 1 + int(length)]
    at = end + 1 + int(length)
    kind, number = kind.decode(), int(number)
    name = os.path.relpath(path.decode(), cache)
    if kind == 'W' and number < 0:
      ops.append(('R', name, os.path.relpath(data.decode(), cache)))
    elif kind == 'W':
      ops.append(('W', name, number, data))
    else:
      ops.append((kind, name, number))
  return ops


def apply(state, op):
  state = None if state is None else dict(state)
  kind, name = op[0], op[1]
  if kind == 'M':
    if name == '.':
      return {}
    state[name] = None
  elif kind == 'O':
    if op[2] or name not in state:
      state[name] = b''
  elif kind == 'W':
    old = state.get(name, b'')
    if len(old) < op[2]:
      old += b'\0' * (op[2] - len(old))
    state[name] = old[:op[2]] + op[3] + old[op[2] + len(op[3]):]
  elif kind == 'T':
    old = state.get(name, b'')[:op[2]]
    state[name] = old + b'\0' * (op[2] - len(old))
  elif kind == 'R':
    state[op[2]] = state.pop(name)
  elif kind == 'U':
    if name == '.':
      return None
    state.pop(name, None)
  return state


def torn(op):
  """The write cut short."""
  n = len(op[3])
  cuts = {1, 7, 8, 512, n // 2, n - 1, 4096, n - n % 4096 if n > 4096 else 1}
  for c in sorted(cuts):
    if 0 < c < n:
      yield ('W', op[1], op[2], op[3][:c])


def interrupted(state, ops, only=None):
  """All states in which a run may leave the directory."""
  for k, op in enumerate(ops):
    if only is None or k == only:
      yield state, k, 'before'
      if op[0] == 'W':
        for cut in torn(op):
          yield apply(state, cut), k, 'torn at %d' % len(cut[3])
    state = apply(state, op)
  if only is None or only == len(ops):
    yield state, len(ops), 'complete'


# --- exploration


def start_state(ctx, case):
  if case['start'] == 'absent':
    return None
  if case['start'] == 'empty':
    return {}
  other = 'small' if case['script'] == 'full' else 'full'
  return ctx.run(other, {})[2]


def describe(ops):
  return ['%s %s' % (o[0], ' '.join(str(x) if not isinstance(x, bytes) else
                                    '%d bytes' % len(x) for x in o[1:]))
          for o in ops]


def check(case, rec):
  ctx = context()
  which = case['script']
  start = start_state(ctx, case)
  count = script.SCRIPTS[which][1]
  models = len(TRAIN)
  want = summary({
      'train': (np.stack([script.expected(k, count) for k in range(models)]),
                np.array(TRAIN)),
      'test': (np.stack([script.expected(models + k, count)
                         for k in range(len(TEST))]), np.array(TEST))})

  def explore(state, trail):
    """One complete run from a state."""
    answer, ops, final = ctx.run(which, state)
    rec.op()
    rec.state((which, freeze(state)))
    got = answer.get('data')
    if got is not None and not got:
      raise Skip()  # the data cannot be found in the script
    if got != want:
      raise Violation('%s, started on %s after\n%s\n%s' % (
          script.SCRIPTS[which][0], {k: v if v is None else '%d bytes' % len(v)
                                     for k, v in (state or {}).items()},
          '\n'.join(trail),
          answer.get('error') or 'uses other data than that of the files: '
          '%s' % {p: v[1] for p, v in got.items()}))
    replayed = state
    for op in ops:
      replayed = apply(replayed, op)
    if freeze(replayed) != freeze(final):
      # written by other means than the library knows: only complete runs
      return [], final
    return ops, final

  if (which, case['start']) not in ctx.first:
    ctx.first[which, case['start']] = explore(start, ['nothing'])
  ops, final = ctx.first[which, case['start']]
  if case['op'] > len(ops):
    raise Skip()
  if len(ops) >= MAX_OPS:
    raise RuntimeError('%d operations' % len(ops))
  # states other cases explore
  seen = {freeze(s) for s, _, _ in interrupted(start, ops)}
  todo = []
  mine = set()
  for state, k, how in interrupted(start, ops, case['op']):
    if freeze(state) not in mine:
      mine.add(freeze(state))
      todo.append((state, ['run interrupted at operation %d of %s, %s' % (
          k, describe(ops), how)], 1))
  seen |= mine
  while todo:
    state, trail, depth = todo.pop(0)
    more, final = explore(state, trail)
    # a run on what this run leaves uses the same data
    explore(final, trail + ['a complete run'])
    rec.trace(2)
    if depth >= case['depth']:
      continue
    for state2, k, how in interrupted(state, more):
      key = freeze(state2)
      if key not in seen:
        seen.add(key)
        todo.append((state2, trail + [
            'run interrupted at operation %d of %s, %s' % (
                k, describe(more), how)], depth + 1))
