"""Entry point: run one property's check (or replay a case)."""
import collections
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read_known(prop):
  """Known findings: lines 'KNOWN-FINDING property=<id> scenario=<s> match=<text> :: <what>'."""
  out = []
  path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
  if os.path.exists(path):
    for line in open(path):
      if line.startswith('KNOWN-FINDING ') and f'property={prop} ' in line:
        head, what = line.split(' :: ', 1)
        match = head.split('match=', 1)[1].strip()
        out.append((match, what.strip()))
  return out


def plan(prop, tier):
  """Reads counts without importing JAX in this process."""
  code = ('import json,sys\nfrom hkmon import worker\nworker.setup_env()\n'
          f'm=worker.load({prop!r})\n'
          'print("PLAN"+json.dumps(dict(level=m.LEVEL,rule=m.RULE,required=m.REQUIRED,'
          'assumptions=getattr(m,"ASSUMPTIONS",[]),exhaustive=getattr(m,"EXHAUSTIVE",False),'
          'workers=getattr(m,"WORKERS",8),'
          'scen={k:list(v[1:3]) for k,v in m.SCENARIOS.items()})))')
  r = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True)
  for line in r.stdout.splitlines():
    if line.startswith('PLAN'):
      return json.loads(line[4:]), ''
  return None, r.stderr


def order_jobs(scen, tier):
  """Interleaves scenarios proportionally so that truncation hits all alike."""
  col = 0 if tier == 'quick' else 1
  items = []
  for s, counts in scen.items():
    n = counts[col]
    items += [((i + 0.5) / max(n, 1), s, i) for i in range(n)]
  items.sort()
  return [(s, i) for _, s, i in items]


def write_replay(prop, tier, seed, rec):
  d = os.path.join(ROOT, 'replays', prop)
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, f"{rec['scenario']}-{rec['index']}-s{seed}.json")
  with open(path, 'w') as f:
    json.dump(dict(property=prop, tier=tier, seed=seed, scenario=rec['scenario'],
                   index=rec['index'], violation=rec['violation'],
                   how=f'bash /verif/run.sh {prop} replay {path}'), f, indent=1,
              default=str)
  return path


def run_check(prop, tier, seed):
  t0 = time.time()
  info, err = plan(prop, tier)
  if info is None:
    print(err[-3000:])
    print(f'INCONCLUSIVE property={prop}: the tree or the harness does not import')
    return 2
  jobs = order_jobs(info['scen'], tier)
  nw = max(1, min(int(os.environ.get('VERIF_WORKERS', info['workers'])), len(jobs)))
  soft = float(os.environ.get('VERIF_SOFT_S', 420 if tier == 'quick' else 3 * 3600))
  hard = soft + (300 if tier == 'quick' else 1800)
  known = read_known(prop)
  tmp = tempfile.mkdtemp(prefix='hkmon_')
  procs = []
  try:
    for w in range(nw):
      jf = os.path.join(tmp, f'jobs{w}.json')
      of = os.path.join(tmp, f'out{w}.jsonl')
      with open(jf, 'w') as f:
        json.dump(jobs[w::nw], f)
      log = open(os.path.join(tmp, f'log{w}'), 'w')
      procs.append((subprocess.Popen(
          [sys.executable, '-m', 'hkmon.worker', prop, tier, str(seed), jf, of,
           str(soft)], stdout=log, stderr=subprocess.STDOUT, cwd=ROOT), of, log))
    deadline = t0 + hard
    timed_out = 0
    if os.environ.get('VERIF_STOP_FIRST'):  # Development aid: end at the first violation.
      while any(p.poll() is None for p, _, _ in procs) and time.time() < deadline:
        if any('"violation": {' in l and not any(m in l for m, _ in known)
               for _, of, _ in procs if os.path.exists(of) for l in open(of)):
          for p, _, _ in procs:
            p.kill()
        time.sleep(0.5)
    for p, _, _ in procs:
      try:
        p.wait(timeout=max(1, deadline - time.time()))
      except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        timed_out += 1
    events, sigs, samples = collections.Counter(), set(), []
    per_scen, viols, problems = collections.Counter(), [], []
    secs = collections.Counter()
    skipped = 0
    notes = []
    for w, (p, of, log) in enumerate(procs):
      log.close()
      done = False
      if os.path.exists(of):
        for line in open(of):
          try:
            r = json.loads(line)
          except ValueError:
            continue
          if r.get('done'):
            done = True
          elif 'skipped' in r:
            skipped += r['skipped']
          else:
            per_scen[r['scenario']] += 1
            secs[r['scenario']] += r.get('t', 0)
            events.update(r['events'])
            sigs.update((r['scenario'], s) for s in r['sigs'])
            if r['samples'] and per_scen[r['scenario']] <= 2:
              samples += [dict(scenario=r['scenario'], index=r['index'], case=s)
                          for s in r['samples']]
            if 'note' in r and len(notes) < 20:
              notes.append(r['note'])
            if 'violation' in r:
              viols.append(r)
            if 'inconclusive' in r:
              problems.append(f"{r['scenario']}[{r['index']}]: {r['inconclusive']}")
      if not done:
        tail = open(os.path.join(tmp, f'log{w}')).read()[-1500:]
        problems.append(f'worker {w} ended early (rc={p.returncode}): {tail}')
  finally:
    for p, _, _ in procs:
      if p.poll() is None:
        p.kill()
    shutil.rmtree(tmp, ignore_errors=True)
  new_viols, found = [], {}
  for r in viols:
    text = r['scenario'] + ': ' + r['violation']['message']
    for match, what in known:
      if match in text:
        found[match] = what
        break
    else:
      new_viols.append(r)
  # Three-valued verdict.
  if timed_out:
    problems.append(f'{timed_out} workers hit the wall-clock watchdog')
  if not new_viols:
    for k, n in info['required'].items():
      if events[k] < n:
        problems.append(f'monitor event {k!r} observed {events[k]} < {n} times')
  wall = time.time() - t0
  coverage = dict(
      evaluations=int(sum(per_scen.values())), distinct_nontrivial=len(sigs),
      rule=info['rule'], samples=samples[:6] or ['none'],
      cases_per_scenario=dict(per_scen), monitor_events=dict(sorted(events.items())),
      seconds_per_scenario={k: round(v, 1) for k, v in secs.items()},
      cases_skipped_by_time_cap=skipped, workers=nw)
  if info['exhaustive']:
    coverage['exhaustive'] = True
  if notes:
    coverage['notes'] = notes
  ev = dict(property=prop, tier=tier, seed=seed, level=info['level'],
            coverage=coverage, assumptions=info['assumptions'],
            wall_s=round(wall, 2), violations=len(new_viols))
  os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
  with open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)
    f.write('\n')
  print(f'{prop} {tier} seed={seed}: {sum(per_scen.values())} cases '
        f'({len(sigs)} distinct non-trivial), {events["oracle"]} oracle decisions, '
        f'{wall:.1f}s, scenarios {dict(per_scen)}')
  for match, what in known:
    print(f'KNOWN-FINDING: property={prop} {what}' +
          ('' if match in found else ' (not reproduced in this run)'))
  if new_viols:
    for r in new_viols[:5]:
      path = write_replay(prop, tier, seed, r)
      print(f"  {r['scenario']}[{r['index']}]: {r['violation']['message']}")
      for k, v in list(r['violation']['ctx'].items())[:6]:
        print(f'      {k}: {str(v)[:400]}')
      print(f'VIOLATION property={prop} replay={path}')
    return 1
  if problems:
    for p in problems[:10]:
      print('INCONCLUSIVE', p)
    return 2
  return 0


def replay(path):
  from hkmon import worker
  worker.setup_env()
  with open(path) as f:
    r = json.load(f)
  mod = worker.load(r['property'])
  rec = worker.run_case(mod, r['scenario'], r['index'], r['seed'], r['tier'])
  if 'violation' in rec:
    print(rec['violation']['message'])
    for k, v in rec['violation']['ctx'].items():
      print('  ', k, ':', v)
    print(rec['violation']['traceback'])
    print(f"VIOLATION property={r['property']} replay={path}")
    return 1
  print('case holds; events', rec['events'])
  return 0


def main():
  a = sys.argv[1:]
  if len(a) >= 3 and a[1] == 'replay':
    return replay(a[2])
  prop = a[0]
  tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  if tier == 'case':  # bash run.sh C01 case scenario index
    from hkmon import worker
    worker.setup_env()
    rec = worker.run_case(worker.load(prop), a[2], int(a[3]), seed, 'quick')
    print(json.dumps(rec, indent=1, default=str)[:8000])
    if 'violation' in rec:
      print(rec['violation']['traceback'])
    return 0
  return run_check(prop, tier, seed)


if __name__ == '__main__':
  sys.exit(main())
