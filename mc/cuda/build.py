"""Compiles the CUDA ops of the repository for the emulated device.

The sources are taken as they are, with three mechanical substitutions which a
C++ compiler needs (and which nvcc does as well): kernel launches
`k<<<config>>>(args)` become calls, `__shared__` variables become references
into the shared memory of the current block.
"""

import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
OPS = 'custom_ops/tfg_custom_ops'


def matching(text, i, opening, closing):
  """Index behind the bracket which closes the one at i."""
  depth = 0
  while i < len(text):
    if text[i] == opening:
      depth += 1
    elif text[i] == closing:
      depth -= 1
      if depth == 0:
        return i + 1
    i += 1
  raise ValueError('unbalanced')


def blank_comments(text):
  """Comments and their length replaced by blanks, so that they hide nothing
  and match nothing; strings stay."""
  out, i = [], 0
  while i < len(text):
    two = text[i:i + 2]
    if two == '//':
      j = text.find('\n', i)
      # a backslash continues the comment
      while j > 0 and text[j - 1] == '\\':
        j = text.find('\n', j + 1)
      j = len(text) if j < 0 else j
      out.append(re.sub(r'[^\n]', ' ', text[i:j]))
    elif two == '/*':
      j = text.find('*/', i + 2)
      j = len(text) if j < 0 else j + 2
      out.append(re.sub(r'[^\n]', ' ', text[i:j]))
    elif text[i] in '"\'':
      j = i + 1
      while j < len(text) and text[j] != text[i]:
        j += 2 if text[j] == '\\' else 1
      j = min(j + 1, len(text))
      out.append(text[i:j])
    else:
      j = i + 1
      out.append(text[i])
    i = j
  return ''.join(out)


def rewrite_launches(text):
  while True:
    at = text.find('<<<')
    if at < 0:
      return text
    end = text.index('>>>', at)
    config = text[at + 3:end]
    # the kernel's name, with its template arguments, ends before <<<
    i = at
    while text[i - 1].isspace():
      i -= 1
    if text[i - 1] == '>':
      depth, i = 1, i - 1
      while depth:
        i -= 1
        depth += {'>': 1, '<': -1}.get(text[i], 0)
      while text[i - 1].isspace():
        i -= 1
    while re.match(r'[\w:]', text[i - 1]):
      i -= 1
    name = text[i:at].strip()
    text = '%semu::launch(emu::Config(%s), "%s", [](auto... emu_a) { %s(emu_a...); })%s' % (
        text[:i], config, re.sub(r'\s+', '', name), name, text[end + 3:])


def rewrite_shared(text):
  def dynamic(m):
    return '%s* %s = (%s*)emu::dynamic_shared();' % (
        m.group(1), m.group(2), m.group(1))
  text = re.sub(r'extern\s+__shared__\s+(?:__align__\s*\([^)]*\)\s*)?'
                r'([\w:<>\s]+?)\s*(\w+)\s*\[\s*\]\s*;', dynamic, text)

  def static(m):
    base, out = m.group(1).strip(), []
    for part in m.group(2).split(','):
      name, dims = re.match(r'\s*(\w+)\s*((?:\[[^\]]*\]\s*)*)$', part).groups()
      out.append('using emu_t_%s = %s%s; emu_t_%s& %s = '
                 '*(emu_t_%s*)emu::static_shared(__FILE__, __LINE__, "%s", '
                 'sizeof(emu_t_%s));' % (
                     name, base, dims, name, name, name, name, name))
    return ' '.join(out)
  return re.sub(r'__shared__\s+((?:unsigned\s+|volatile\s+|const\s+)*[\w:]+(?:<[^;]*?>)?)\s+'
                r'([^;=()]+);', static, text)


def build(repo, out, log=None):
  """Builds out/libemu.so; returns its path. Raises on failure."""
  src = os.path.join(out, 'src')
  os.makedirs(src)
  units = []
  top = os.path.join(repo, OPS)
  for folder, _, files in os.walk(top):
    for name in files:
      if not name.endswith(('.cc', '.cpp', '.h', '.hpp', '.cuh', '.cu')):
        continue
      path = os.path.join(folder, name)
      rel = os.path.relpath(path, os.path.dirname(top))
      target = os.path.join(src, rel)
      os.makedirs(os.path.dirname(target), exist_ok=True)
      with open(path) as f:
        text = blank_comments(f.read())
      with open(target, 'w') as f:
        f.write(rewrite_shared(rewrite_launches(text)))
      if name.endswith(('.cc', '.cpp', '.cu')):
        units.append(target)
  shim = os.path.join(HERE, 'shim')
  common = ['clang++', '-std=c++17', '-fPIC', '-g1', '-w', '-I', shim,
            '-fno-strict-aliasing', '-ffp-contract=off']
  kernel = common + [
      '-O1', '-fsanitize=thread', '-fno-vectorize', '-fno-slp-vectorize',
      '-fno-unroll-loops', '-ftrivial-auto-var-init=pattern',
      '-include', 'tf_shim.h', '-I', src, '-DGOOGLE_CUDA=1']

  def compile_one(job):
    command, source, target = job
    p = subprocess.run(command + ['-x', 'c++', '-c', source, '-o', target],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    return p.returncode, source, p.stdout
  jobs = [(common + ['-O2'], os.path.join(HERE, 'emu.cpp'),
           os.path.join(out, 'emu.o'))]
  for i, unit in enumerate(sorted(units)):
    inc = ['-I', os.path.dirname(unit)]
    jobs.append((kernel + inc, unit, os.path.join(out, 'unit%d.o' % i)))
  with ThreadPoolExecutor(8) as pool:
    results = list(pool.map(compile_one, jobs))
  for code, source, text in results:
    if code:
      raise RuntimeError('cannot compile %s:\n%s' % (source, text[:4000]))
  library = os.path.join(out, 'libemu.so')
  p = subprocess.run(['clang++', '-shared', '-o', library, '-Wl,--wrap=time',
                      '-Wl,-Bsymbolic'] + [j[2] for j in jobs],
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
  if p.returncode:
    raise RuntimeError('cannot link:\n' + p.stdout[:4000])
  shutil.rmtree(src)
  for j in jobs:
    os.unlink(j[2])
  return library


if __name__ == '__main__':
  print(build(sys.argv[1], sys.argv[2]))
