"""Bounded exhaustive exploration engine.

Parent process: starts one worker process per core, each of which explores its
share of the bounded space of a check, merges what they covered, writes the
evidence file and reports violations.

A check is a module mc.checks.<id> with

  LEVEL_RULE: text, how the space is built and what bounds it
  ASSUMPTIONS: list of texts
  cases(tier): generator of the complete bounded space, simplest cases first;
      every case is JSON serialisable, so that it can be replayed alone.
  check(case, rec): runs the real code on one case, compares every observation
      with the reference model and raises Violation on disagreement.
      rec.op(n): n operations of the implementation were executed
      rec.state(x): an observed state (canonical form) of the implementation

A case which raises is a violation as well: every case is inside the domain in
which the property promises an answer.
"""

import fcntl
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REPLAY_DIR = os.path.join(VERIF, 'replay')
WORK_DIR = os.path.join(VERIF, 'work')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
# seconds after which a worker stops taking new cases; if it is hit, the run
# is reported as not exhaustive.
BUDGET = {'quick': 420, 'thorough': 6 * 3600}
CASE_TIMEOUT = 240


class Violation(Exception):
  """The implementation disagrees with the reference model."""


class Skip(Exception):
  """The case is outside of the domain of the property."""


class CaseTimeout(BaseException):
  """A case did not come to an end."""


def digest(obj):
  if not isinstance(obj, bytes):
    obj = repr(obj).encode()
  return hashlib.blake2b(obj, digest_size=8).hexdigest()


class Recorder:
  """Counts what was covered."""

  def __init__(self):
    self.ops = 0
    self.states = set()
    self.validated = 0
    self.skipped = 0

  def op(self, n=1):
    self.ops += n

  def state(self, obj):
    self.states.add(digest(obj))

  def trace(self, n=1):
    """n traces of the model were validated against the implementation, in
    addition to the case itself."""
    self.validated += n


def known_findings(prop):
  """Keys of the findings listed for a property."""
  keys = []
  if os.path.exists(KNOWN):
    with open(KNOWN) as f:
      for line in f:
        line = line.strip()
        if line.startswith('finding: property=' + prop + ' '):
          rest = line.split(' ', 2)[2]
          key, _, text = rest.partition(' ')
          assert key.startswith('key='), line
          keys.append((key[4:], text))
  return keys


def claim(path):
  """Index of the next case nobody works on."""
  fd = os.open(path, os.O_RDWR | os.O_CREAT)
  try:
    fcntl.flock(fd, fcntl.LOCK_EX)
    index = int(os.pread(fd, 32, 0) or b'0')
    os.pwrite(fd, b'%d' % (index + 1), 0)
  finally:
    os.close(fd)
  return index


def worker_main(name, tier, shard, nshards, out):
  module = importlib.import_module('mc.checks.' + name.lower())
  rec = Recorder()
  result = {'violations': [], 'cases': 0, 'capped': False, 'samples': [],
            'case_digests': 0}
  start = time.time()
  budget = float(os.environ.get('VERIF_BUDGET', BUDGET[tier]))

  def on_alarm(signum, frame):
    raise CaseTimeout()
  signal.signal(signal.SIGALRM, on_alarm)
  seen = set()
  current = out + '.current'
  timeout = getattr(module, 'CASE_TIMEOUT', CASE_TIMEOUT)
  counter = os.path.join(os.path.dirname(out), 'counter')
  mine = claim(counter)
  for i, case in enumerate(module.cases(tier)):
    if i != mine:
      continue
    mine = claim(counter)
    if time.time() - start > budget:
      # claimed cases are not explored: reported as such
      result['capped'] = True
      break
    with open(current, 'w') as f:
      json.dump({'index': i, 'case': case}, f)
    error, key = None, None
    try:
      signal.alarm(timeout)
      module.check(case, rec)
      signal.alarm(0)
    except Skip:
      rec.skipped += 1
    except Violation as e:
      error = str(e)
      key = getattr(e, 'key', None)
    except MemoryError:
      raise
    except CaseTimeout:
      error = 'did not terminate within %d s' % timeout
    except Exception as e:  # the property promises an answer here
      error = 'raised %s: %s\n%s' % (
          type(e).__name__, str(e)[:600], traceback.format_exc()[-2500:])
    finally:
      signal.alarm(0)
    result['cases'] += 1
    rec.validated += 1
    seen.add(digest(json.dumps(case, sort_keys=True)))
    if len(result['samples']) < 2 and (result['cases'] in (1, 40)):
      result['samples'].append(case)
    if error is not None:
      result['violations'].append(
          {'index': i, 'case': case, 'error': error, 'key': key})
      if len([v for v in result['violations']]) >= 5:
        result['capped'] = True
        break
  result['distinct_cases'] = len(seen)
  result['ops'] = rec.ops
  result['states'] = sorted(rec.states)
  result['validated'] = rec.validated
  result['skipped'] = rec.skipped
  with open(out + '.tmp', 'w') as f:
    json.dump(result, f)
  os.replace(out + '.tmp', out)


def environment():
  env = dict(os.environ)
  env.update({
      'PYTHONPATH': VERIF + ':' + REPO,
      'TF_USE_LEGACY_KERAS': '1', 'CUDA_VISIBLE_DEVICES': '-1',
      'TF_CPP_MIN_LOG_LEVEL': '3', 'TF_ENABLE_ONEDNN_OPTS': '0',
      'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
      'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1',
      'OPENBLAS_NUM_THREADS': '1', 'TF_NUM_INTRAOP_THREADS': '1',
      'TF_NUM_INTEROP_THREADS': '1', 'HOME': env.get('HOME', '/root'),
      'LANG': 'C.UTF-8',
  })
  return env


def build_device(name, run_dir, env):
  """Compiles the CUDA ops of the repository for the emulated device."""
  from mc.meta import CHECKS
  if CHECKS[name]['device'] and 'VERIF_EMU' not in env:
    from mc.cuda import build
    env['VERIF_EMU'] = build.build(REPO, os.path.join(run_dir, 'emu'))


def write_replay(name, tier, violation):
  os.makedirs(REPLAY_DIR, exist_ok=True)
  path = os.path.join(REPLAY_DIR, '%s-%s.json' % (
      name, digest(json.dumps(violation['case'], sort_keys=True))))
  with open(path, 'w') as f:
    json.dump({'property': name, 'tier': tier, 'case': violation['case'],
               'error': violation['error'],
               'replay': './run.sh replay ' + path}, f, indent=1)
  return path


def parent_main(name, tier):
  start = time.time()
  seed = int(os.environ.get('VERIF_SEED', '1'))
  module_path = os.path.join(VERIF, 'mc', 'checks', name.lower() + '.py')
  assert os.path.exists(module_path), module_path
  nshards = int(os.environ.get('VERIF_JOBS', '8'))
  run_dir = os.path.join(WORK_DIR, '%s-%d' % (name, os.getpid()))
  os.makedirs(run_dir)
  outs, procs = [], []
  env = environment()
  try:
    build_device(name, run_dir, env)
    for shard in range(nshards):
      out = os.path.join(run_dir, 'shard%d.json' % shard)
      log = open(out + '.log', 'w')
      outs.append(out)
      procs.append(subprocess.Popen(
          [sys.executable, '-W', 'ignore', '-m', 'mc.engine', 'worker', name,
           tier, str(shard), str(nshards), out],
          cwd=VERIF, env=dict(env, TMPDIR=run_dir), stdout=log,
          stderr=log))
    results, failed = [], []
    for shard, (proc, out) in enumerate(zip(procs, outs)):
      code = proc.wait()
      if code == 0 and os.path.exists(out):
        with open(out) as f:
          results.append(json.load(f))
      else:
        failed.append((shard, code))
    violations = [v for r in results for v in r['violations']]
    errors = []
    for shard, code in failed:
      current = outs[shard] + '.current'
      with open(outs[shard] + '.log') as f:
        log = f.read()[-3000:]
      if code in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE,
                  -signal.SIGBUS, -signal.SIGILL) and os.path.exists(current):
        with open(current) as f:
          cur = json.load(f)
        violations.append({'index': cur['index'], 'case': cur['case'],
                           'error': 'process died with signal %d\n%s' %
                                    (-code, log), 'key': None})
      else:
        errors.append('worker %d ended with %d:\n%s' % (shard, code, log))
    return report(name, tier, seed, start, results, violations, errors)
  finally:
    for proc in procs:
      if proc.poll() is None:
        proc.kill()
    subprocess.call(['/bin/rm', '-rf', run_dir])


def report(name, tier, seed, start, results, violations, errors, extra=None):
  module = importlib.import_module('mc.meta')
  meta = module.CHECKS[name]
  listed = dict(known_findings(name))
  hit, new = {}, []
  for v in violations:
    if v.get('key') in listed:
      hit.setdefault(v['key'], v)
    else:
      new.append(v)
  states = set()
  for r in results:
    states.update(r['states'])
  capped = any(r['capped'] for r in results)
  samples = [s for r in results for s in r['samples']][:6]
  coverage = {
      'states': len(states),
      'transitions': sum(r['ops'] for r in results),
      'traces_validated_against_impl': sum(r['validated'] for r in results),
      'distinct_cases': sum(r['distinct_cases'] for r in results),
      'skipped_outside_domain': sum(r['skipped'] for r in results),
      'samples': samples,
      'rule': meta['rule'],
      'exhaustive': not capped and not errors,
  }
  if capped:
    coverage['cap'] = 'a time or violation cap was hit; cases are explored ' \
        'in order, simplest first, by every worker'
  if extra:
    coverage.update(extra)
  evidence = {
      'property': name, 'tier': tier, 'seed': seed, 'level': meta['level'],
      'coverage': coverage, 'assumptions': meta['assumptions'],
      'wall_s': round(time.time() - start, 2), 'violations': len(new),
  }
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  path = os.path.join(VERIF, 'evidence', name + '.json')
  with open(path + '.tmp', 'w') as f:
    json.dump(evidence, f, indent=1)
  os.replace(path + '.tmp', path)
  print('%s %s: states=%d transitions=%d traces=%d cases=%d exhaustive=%s '
        'wall=%.1fs' % (
            name, tier, coverage['states'], coverage['transitions'],
            coverage['traces_validated_against_impl'],
            coverage['distinct_cases'], coverage['exhaustive'],
            evidence['wall_s']))
  for key, text in listed.items():
    # every listed finding is named, found again on this run or not
    print('KNOWN-FINDING: property=%s %s' % (name, text))
  if new:
    new.sort(key=lambda v: v['index'])
    for v in new[:3]:
      replay = write_replay(name, tier, v)
      print('case %d: %s' % (v['index'], json.dumps(v['case'])[:1500]))
      print(v['error'][:2500])
      print('VIOLATION property=%s replay=%s' % (name, replay))
    return 1
  if errors:
    for e in errors:
      print('ERROR', e)
    return 2
  return 0


def replay_main(path):
  """Plain replay of one recorded case, twice, without the explorer."""
  with open(path) as f:
    data = json.load(f)
  outcomes = []
  run_dir = os.path.join(WORK_DIR, 'replay-%d' % os.getpid())
  os.makedirs(run_dir)
  try:
    build_device(data['property'], run_dir, os.environ)
    module = importlib.import_module('mc.checks.' + data['property'].lower())
    for _ in range(2):
      try:
        module.check(data['case'], Recorder())
        outcomes.append(None)
      except Exception as e:
        outcomes.append('%s: %s' % (type(e).__name__, e))
  finally:
    subprocess.call(['/bin/rm', '-rf', run_dir])
  print('\n'.join(str(o) for o in outcomes))
  if outcomes[0] != outcomes[1]:
    print('ERROR replay is not deterministic')
    return 2
  if outcomes[0] is not None:
    print('VIOLATION property=%s replay=%s' % (data['property'], path))
    return 1
  return 0


if __name__ == '__main__':
  if sys.argv[1] == 'worker':
    # run as module 'mc.engine', so that checks see the same classes
    from mc import engine
    engine.worker_main(sys.argv[2], sys.argv[3], int(sys.argv[4]),
                       int(sys.argv[5]), sys.argv[6])
  elif sys.argv[1] == 'replay':
    from mc import engine
    sys.exit(engine.replay_main(sys.argv[2]))
  else:
    from mc import engine
    sys.exit(engine.parent_main(
        sys.argv[1], os.environ.get('VERIF_TIER', 'quick')))
