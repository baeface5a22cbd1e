"""Confirms planted bugs in scratch copies and stores the confirmed ones under /verif/seeded.

usage: plant.py SPEC.py [id ...]   (SPEC.py calls bug(...); runs in private mount namespaces)
       plant.py --recheck [id ...] re-run this tree's checks against stored bugs
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

V = '/verif'
S = f'{V}/seeded'
BUGS = {}
NOTEST = os.environ.get('NOTEST')


def bug(id, prop, edits, needs, breaks, demo):
  """edits: list of (file, old, new)."""
  BUGS[id] = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


def sh(cmd, **kw):
  return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def ns(repo, verif, cmd, timeout=1500):
  """Runs cmd with repo bound at /repo and verif (if any) at /verif."""
  b = f'mount --bind {repo} /repo'
  if verif:
    b += f' && mount --bind {verif} /verif'
  return subprocess.run(['unshare', '-m', 'bash', '-c', f'{b} && {cmd}'], capture_output=True, text=True,
                        timeout=timeout)


DEMO_SH = '''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$d/demo.py"
'''


def make(b):
  """Returns (ok, message)."""
  w = f"/tmp/wt_{b['id']}"
  shutil.rmtree(w, ignore_errors=True)
  sh(f'cp -a /repo {w} && git -C {w} checkout -q -- .')
  try:
    for f, old, new in b['edits']:
      p = os.path.join(w, f)
      s = open(p).read()
      if s.count(old) != 1:
        return False, f'edit matches {s.count(old)} times: {old[:60]!r}'
      open(p, 'w').write(s.replace(old, new))
    diff = sh(f'git -C {w} diff').stdout
    d = f"/tmp/seed_{b['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.py', 'w').write(b['demo'].strip() + '\n')
    open(f'{d}/demo.sh', 'w').write(DEMO_SH)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']),
              open(f'{d}/meta.json', 'w'), indent=1)
    r = sh(f'cd /repo && timeout 290 bash {d}/demo.sh')
    if r.returncode:
      return False, 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-800:]
    r = ns(w, None, f'cd /repo && timeout 290 bash {d}/demo.sh')
    if r.returncode == 0:
      return False, 'demo passes with the bug'
    tail = (r.stdout + r.stderr).strip().splitlines()[-1:]
    if not NOTEST:
      r = ns(w, None, f'bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/out_{b["id"]}.json', 1500)
      base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
      try:
        got = set(json.load(open(f'/tmp/out_{b["id"]}.json'))['passed'])
      except OSError:
        return False, 'tests did not run: ' + r.stdout[-500:] + r.stderr[-500:]
      os.remove(f'/tmp/out_{b["id"]}.json')
      if base - got:
        return False, f'{len(base - got)} tests fail: {sorted(base - got)[:3]}'
    shutil.rmtree(f"{S}/{b['id']}", ignore_errors=True)
    shutil.copytree(d, f"{S}/{b['id']}")
    shutil.rmtree(d)
    return True, f'confirmed; demo says {tail}; ' + check(b['id'], b['prop'], w)
  finally:
    shutil.rmtree(w, ignore_errors=True)


def check(id, prop, w, props=None):
  v = f'/tmp/vf_{id}'
  shutil.rmtree(v, ignore_errors=True)
  sh(f'mkdir {v} && cp -a {V}/hkmon {V}/run.sh {V}/KNOWN_FINDINGS.txt {v}/')
  out = []
  for p in props or [prop]:
    r = ns(w, v, f'cd /verif && VERIF_SEED={os.environ.get("VERIF_SEED", "1")} VERIF_TIER=quick bash run.sh {p} quick', 1200)
    caught = r.returncode == 1 and f'VIOLATION property={p} ' in r.stdout
    first = [l for l in r.stdout.splitlines() if l.startswith('  ')][:1]
    out.append(f"{p} {'CAUGHT' if caught else 'MISSED rc=%d' % r.returncode} {first} " +
               ('' if caught else r.stdout[-300:]))
  shutil.rmtree(v, ignore_errors=True)
  return '; '.join(out)


def recheck(id):
  w = f'/tmp/wt_{id}'
  shutil.rmtree(w, ignore_errors=True)
  sh(f'cp -a /repo {w} && git -C {w} checkout -q -- .')
  try:
    r = sh(f"git -C {w} apply {S}/{id}/patch.diff")
    if r.returncode:
      return False, 'patch does not apply: ' + r.stderr
    m = json.load(open(f'{S}/{id}/meta.json'))
    res = check(id, m['property'], w)
    return 'CAUGHT' in res, res
  finally:
    shutil.rmtree(w, ignore_errors=True)


def main():
  if sys.argv[1] == '--recheck':
    ids = sys.argv[2:] or sorted(os.listdir(S))
    f, items = recheck, {i: i for i in ids}
  else:
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), dict(bug=bug))
    ids = sys.argv[2:] or list(BUGS)
    f, items = make, {i: BUGS[i] for i in ids}
  with cf.ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
    futs = {ex.submit(f, x): i for i, x in items.items()}
    for fu in cf.as_completed(futs):
      try:
        ok, msg = fu.result()
      except Exception as e:  # pylint: disable=broad-except
        ok, msg = False, repr(e)
      print('OK ' if ok else 'BAD', futs[fu], msg[:1200], flush=True)


if __name__ == '__main__':
  main()
