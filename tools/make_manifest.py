"""Writes MANIFEST.json from mc/meta.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mc import meta  # noqa: E402

NOT_APPLICABLE = {}
checks, na = [], []
with open(os.path.join(HERE, 'properties.jsonl')) as f:
  props = [json.loads(line) for line in f]
for p in props:
  pid = p['id']
  if pid in meta.CHECKS:
    m = meta.CHECKS[pid]
    checks.append({
        'property': pid,
        'quick_cmd': './run.sh %s' % pid,
        'thorough_cmd': 'VERIF_TIER=thorough ./run.sh %s' % pid,
        'technique': m.get('technique') or
        'model checking: exhaustive bounded exploration of the real code '
        'against an executable reference model',
        'level': m['level'],
        'level_note': 'Holds on every behaviour of the bounded space: %s.%s'
        % (m['rule'], ' Assumes: ' + '; '.join(m['assumptions']) + '.'
           if m['assumptions'] else ''),
    })
  else:
    na.append({'property': pid, 'reason': NOT_APPLICABLE.get(
        pid, 'the check for this property is not built yet')})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
  json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
             'not_applicable': na,
             'notes': 'No hooks in /repo. See DESIGN.md.'}, f, indent=1,
            ensure_ascii=False)
print(len(checks), 'checks', len(na), 'not applicable')
