"""C38: the library on the CUDA ops. The cases and references of the other
checks, for the library as it is when the custom ops are installed: the package
of the ops is replaced by one with the same functions, which runs the sources
of the ops on the emulated device."""

import importlib
import os
import sys

FAKE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(
    __file__))), 'cuda', 'fake')
if FAKE not in sys.path:
  sys.path.insert(0, FAKE)

import tfg_custom_ops  # noqa: E402

from mc.cuda import space  # noqa: E402
from mc.engine import Skip, Violation  # noqa: E402
from pylib.pc import custom_ops  # noqa: E402

CASE_TIMEOUT = 800

# every nth case of the quick tier of another check
STRIDES = {
    'c03': (40, 10), 'c04': (30, 2), 'c05': (30, 2), 'c06': (20, 1),
    'c07': (20, 1), 'c08': (12, 1), 'c09': (12, 1), 'c10': (10, 1),
    'c11': (10, 1), 'c12': (12, 2), 'c13': (12, 2), 'c14': (20, 3),
    'c15': (15, 2), 'c16': (20, 3), 'c17': (15, 2), 'c18': (12, 2),
    'c19': (30, 4), 'c20': (20, 3), 'c21': (20, 3), 'c22': (10, 2),
    'c23': (15, 3), 'c24': (8, 2), 'c28': (3, 1), 'c29': (12, 2),
    'c30': (20, 4), 'c31': (60, 6),
}


def cases(tier):
  n = 0
  for name, strides in STRIDES.items():
    module = importlib.import_module('mc.checks.' + name)
    for i, case in enumerate(module.cases('quick')):
      if name == 'c28' and 'without batch size' in case['kind']:
        # the access structure needs the batch size as a number
        continue
      if i % strides[tier == 'thorough'] == 0:
        n += 1
        yield {'check': name, 'case': case, 'device': n % len(space.WIDE)}


def check(case, rec):
  if not custom_ops.CUSTOM:
    raise Violation('the library does not use the custom ops')
  module = importlib.import_module('mc.checks.' + case['check'])
  tfg_custom_ops.configure(**space.WIDE[case['device']])
  # the order of points within a sample depends on the device
  for kept in ('_SCENE', '_WANT', 'FRESH'):
    getattr(module, kept, {}).clear()
  try:
    module.check(case['case'], rec)
  except Skip:
    raise
  except Exception as e:
    text = str(e)
    if 'expects a valid number of basis functions' in text or \
        'expects a valid number of input features' in text:
      raise Skip()  # sizes which these ops do not support
    if isinstance(e, Violation):
      raise
    raise Violation('%s: %s: %s' % (case['check'], type(e).__name__,
                                    text[:2000]))
