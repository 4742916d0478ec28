"""Server process: runs a script on request, under the file tracing library.

Reads one request per line and answers with one line, both JSON."""

import hashlib
import json
import os
import sys
import warnings

warnings.filterwarnings('ignore')


def summary(data):
  return {part: [hashlib.sha256(repr((p.shape, l.tolist())).encode() +
                                p.astype('<f8').tobytes()).hexdigest(),
                 list(p.shape)] for part, (p, l) in data.items()}


def main():
  answers = os.fdopen(os.dup(1), 'w')
  os.dup2(2, 1)
  from mc import script
  for line in sys.stdin:
    request = json.loads(line)
    os.truncate(os.environ['MC_TRACE_LOG'], 0)
    try:
      data = script.handed_over(script.run(*request))
      answer = {'data': summary(data)}
    except Exception as e:
      answer = {'error': '%s: %s' % (type(e).__name__, str(e)[:800])}
    answers.write(json.dumps(answer) + '\n')
    answers.flush()


if __name__ == '__main__':
  main()
