"""Runs hand-written changes straight against the quick check of their property; tests only for those missed.

usage: quickmut.py SPEC.py [id ...]    (SPEC.py calls mut(id, prop, file, old, new[, file, old, new ...]))
"""
import concurrent.futures as cf
import json
import os
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import check, ns, sh  # pylint: disable=wrong-import-position

M = {}


def mut(id, prop, *edits):
  M[id] = (prop, [edits[i:i + 3] for i in range(0, len(edits), 3)])


def run(id):
  prop, edits = M[id]
  w = f'/tmp/wt_{id}'
  shutil.rmtree(w, ignore_errors=True)
  sh(f'cp -a /repo {w} && git -C {w} checkout -q -- .')
  try:
    for f, old, new in edits:
      p = os.path.join(w, 'haiku/_src', f)
      s = open(p).read()
      if s.count(old) != 1:
        return f'EDIT matches {s.count(old)} times: {old[:60]!r}'
      open(p, 'w').write(s.replace(old, new))
    res = check(id, prop, w, prop.split())
    if 'CAUGHT' in res:
      return res
    r = ns(w, None, f'bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/out_{id}.json', 1500)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    try:
      lost = base - set(json.load(open(f'/tmp/out_{id}.json'))['passed'])
      os.remove(f'/tmp/out_{id}.json')
    except OSError:
      return 'TESTS did not run ' + res
    return (f'(tests catch it: {sorted(lost)[:2]}) ' if lost else 'SURVIVES TESTS ') + res
  finally:
    shutil.rmtree(w, ignore_errors=True)


def main():
  exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), dict(mut=mut))
  ids = sys.argv[2:] or list(M)
  with cf.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
    futs = {ex.submit(run, i): i for i in ids}
    for fu in cf.as_completed(futs):
      try:
        print(futs[fu], fu.result()[:500], flush=True)
      except Exception as e:  # pylint: disable=broad-except
        print(futs[fu], 'ERR', repr(e), flush=True)


if __name__ == '__main__':
  main()
