"""Writes DESIGN.md: tools/design_head.md, one section per property from
properties.jsonl, mc/meta.py and tools/design_notes.json, tools/design_tail.md
"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from mc import meta  # noqa
props = [json.loads(l) for l in open(HERE + '/../properties.jsonl')]
notes = json.load(open(HERE + '/design_notes.json'))
out = [open(HERE + '/design_head.md').read().rstrip(), '']
for p in props:
  i = p['id']
  m = meta.CHECKS[i]
  n = notes[i]
  out += ['### %s %s' % (i, p['title']), '', p['statement'], '']
  out += ['- **Explored, with bounds** (thorough in brackets): %s.' % m['rule']]
  out += ['- **Oracle**: %s' % n['oracle']]
  if m['assumptions']:
    out += ['- **Assumes**: %s.' % '; '.join(m['assumptions'])]
  out += ['- **Why the tests do not settle it**: %s' % p['why_tests_cant']]
  out += ['- **Quick cost**: about %s s on 8 cores.' % n['cost']]
  if n.get('note'):
    out += ['- **Note**: %s' % n['note']]
  out += ['']
seeded = HERE + '/../seeded'
table = ['| planted | check | what it breaks |', '|---|---|---|']
for i in sorted(os.listdir(seeded)):
  m = json.load(open('%s/%s/meta.json' % (seeded, i)))
  table += ['| `%s` | %s | %s |' % (
      i, m.get('caught_by', m['property']), m['what_it_breaks'])]
out += [open(HERE + '/design_tail.md').read().rstrip().replace(
    'TABLE', '\n'.join(table)), '']
open(HERE + '/../DESIGN.md', 'w').write('\n'.join(out))
