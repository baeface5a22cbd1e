"""Prints the DESIGN.md section on planted bugs from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
  m = json.load(open(f))
  by.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m['needs']))
print('| check | planted bugs it catches (and what they need) |')
print('|----|---|')
for p in sorted(by):
  print(f'| {p} | ' + '; '.join(f'{i[4:]}: {n}' for i, n in by[p]) + ' |')
