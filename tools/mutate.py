"""Systematic mutation of one source file; reports mutants that survive the file's tests and our checks.

usage: mutate.py FILE[:func,func] PROPS [max] [seed]    e.g. mutate.py haiku/_src/pool.py C16 60 1
Env: SLOTS (parallel mutants), W (check workers each). Appends to /tmp/mut/<name>.log.
"""
import ast
import concurrent.futures as cf
import os
import queue
import random
import shutil
import subprocess
import sys

OUT = '/tmp/mut'
SLOTS = int(os.environ.get('SLOTS', '2'))
W = os.environ.get('W', '4')
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not',
       ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '*', ast.MatMult: '*'}


class Sites(ast.NodeVisitor):
  def __init__(self, src, only):
    self.src = src
    self.lines = src.splitlines(keepends=True)
    self.offs = [0]
    for l in self.lines:
      self.offs.append(self.offs[-1] + len(l.encode()))
    self.raw = src.encode()
    self.only = only
    self.stack = []
    self.out = []

  def pos(self, n):
    return (self.offs[n.lineno - 1] + n.col_offset, self.offs[n.end_lineno - 1] + n.end_col_offset)

  def seg(self, n):
    a, b = self.pos(n)
    return self.raw[a:b].decode()

  def add(self, n, new, kind):
    if self.only and not any(s in self.only for s in self.stack):
      return
    a, b = self.pos(n)
    old = self.raw[a:b].decode()
    if old == new:
      return
    self.out.append((a, b, new, f'{n.lineno} {".".join(self.stack)} {kind}: {old[:90]!r} -> {new[:90]!r}'))

  def visit_FunctionDef(self, n):
    self.stack.append(n.name)
    for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
      self.visit(d)
    body = n.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
      body = body[1:]
    for s in body:
      self.visit(s)
    self.stack.pop()

  def visit_ClassDef(self, n):
    self.stack.append(n.name)
    for s in n.body:
      if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
        self.visit(s)
    self.stack.pop()

  def visit_AnnAssign(self, n):
    if n.value:
      self.visit(n.value)

  def visit_Raise(self, n):
    pass

  def visit_Assert(self, n):
    self.add(n, 'pass', 'noassert')

  def visit_JoinedStr(self, n):
    pass

  def visit_Compare(self, n):
    if len(n.ops) == 1 and type(n.ops[0]) in CMP:
      self.add(n, f'({self.seg(n.left)} {CMP[type(n.ops[0])]} {self.seg(n.comparators[0])})', 'cmp')
    self.generic_visit(n)

  def visit_BinOp(self, n):
    if type(n.op) in BIN:
      self.add(n, f'({self.seg(n.left)} {BIN[type(n.op)]} {self.seg(n.right)})', 'bin')
      if isinstance(n.op, (ast.Add, ast.Sub)):
        self.add(n, f'({self.seg(n.left)})', 'dropright')
    self.generic_visit(n)

  def visit_UnaryOp(self, n):
    self.add(n, f'({self.seg(n.operand)})', 'dropunary')
    self.generic_visit(n)

  def visit_BoolOp(self, n):
    for i in range(len(n.values)):
      rest = [v for j, v in enumerate(n.values) if j != i]
      op = ' and ' if isinstance(n.op, ast.And) else ' or '
      self.add(n, '(' + op.join(self.seg(v) for v in rest) + ')', 'dropbool')
    self.generic_visit(n)

  def visit_Constant(self, n):
    v = n.value
    if v is True or v is False:
      self.add(n, str(not v), 'const')
    elif isinstance(v, int):
      self.add(n, f'{v + 1}' if v >= 0 else f'({v + 1})', 'const')
    elif isinstance(v, float):
      self.add(n, f'{v * 1.5 + 0.1}', 'const')

  def visit_Call(self, n):
    a = [x for x in n.args if not isinstance(x, ast.Starred)]
    if len(n.args) >= 2 and len(a) == len(n.args):
      b, e = self.pos(n.args[0])[0], self.pos(n.args[1])[1]
      x, y = self.seg(n.args[0]), self.seg(n.args[1])
      if x != y and not isinstance(n.args[0], ast.Constant):
        class P: pass
        p = P()
        p.lineno, p.col_offset = n.args[0].lineno, n.args[0].col_offset
        p.end_lineno, p.end_col_offset = n.args[1].end_lineno, n.args[1].end_col_offset
        self.add(p, f'{y}, {x}', 'swapargs')
    f = self.seg(n.func)
    for k in n.keywords:
      parts = [self.seg(x) for x in n.args]
      parts += [(f'{q.arg}=' if q.arg else '**') + self.seg(q.value) for q in n.keywords if q is not k]
      self.add(n, f'{f}({", ".join(parts)})', 'dropkw')
    if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
      self.add(n, f'({self.seg(n.args[0])})', 'unwrap')
    self.generic_visit(n)

  def visit_If(self, n):
    self.add(n.test, 'True', 'cond')
    self.add(n.test, 'False', 'cond')
    self.generic_visit(n)

  def visit_IfExp(self, n):
    self.add(n, f'({self.seg(n.body)})', 'ifexp')
    self.add(n, f'({self.seg(n.orelse)})', 'ifexp')
    self.generic_visit(n)

  def visit_Expr(self, n):
    if isinstance(n.value, ast.Call):
      self.add(n, 'pass', 'dropstmt')
    self.generic_visit(n)

  def visit_Assign(self, n):
    if self.stack and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
      if any(isinstance(c, ast.Name) and c.id == n.targets[0].id for c in ast.walk(n.value)):
        self.add(n, 'pass', 'dropassign')
    self.generic_visit(n)

  def visit_AugAssign(self, n):
    self.add(n, 'pass', 'dropaug')
    self.generic_visit(n)

  def visit_Return(self, n):
    if n.value is not None and isinstance(n.value, ast.Call) and n.value.args:
      pass
    self.generic_visit(n)

  def visit_With(self, n):
    first, last = n.body[0], n.body[-1]
    if len(n.items) == 1 and n.items[0].optional_vars is None:
      self.add(n.items[0].context_expr, '__import__("contextlib").nullcontext()', 'dropwith')
    self.generic_visit(n)

  def visit_Subscript(self, n):
    self.generic_visit(n)


def ns(repo, verif, cmd, timeout):
  b = f'mount --bind {repo} /repo && mount --bind {verif} /verif'
  try:
    return subprocess.run(['unshare', '-mpf', '--kill-child', 'bash', '-c', f'{b} && mount -t proc proc /proc; {cmd}'],
                          capture_output=True, text=True, timeout=timeout)
  except subprocess.TimeoutExpired:
    class R:
      returncode, stdout, stderr = 99, 'TIMEOUT', ''
    return R()


def main():
  spec, props = sys.argv[1], sys.argv[2].split(',')
  n_max = int(sys.argv[3]) if len(sys.argv) > 3 else 60
  seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
  file, _, only = spec.partition(':')
  src = open('/repo/' + file).read()
  s = Sites(src, set(only.split(',')) if only else None)
  s.visit(ast.parse(src))
  muts, seen = [], set()
  for a, b, new, desc in s.out:
    text = (s.raw[:a] + new.encode() + s.raw[b:]).decode()
    if text in seen:
      continue
    seen.add(text)
    try:
      ast.parse(text)
    except SyntaxError:
      continue
    muts.append((text, desc))
  rnd = random.Random(seed)
  rnd.shuffle(muts)
  total = len(muts)
  weak = [m for m in muts if ' unwrap: ' in m[1] or ' swapargs: ' in m[1]]  # mostly crash at once
  muts = [m for m in muts if m not in weak]
  muts = (muts + weak[:max(3, len(muts) // 8)])[:n_max]
  os.makedirs(OUT, exist_ok=True)
  log = open(f'{OUT}/{os.path.basename(file)[:-3]}.log', 'a')
  tests = [file[:-3] + '_test.py']
  tests += os.environ.get('TESTS', '').split()
  tests = ' '.join(t for t in tests if os.path.exists('/repo/' + t))
  # Tests that fail on the unchanged tree, one id per line.
  ids = os.environ.get('DESELECT', '/tmp/deselect.txt')
  deselect = ' '.join(f'--deselect {l.strip()}' for l in open(ids)) if os.path.exists(ids) else ''
  slots = queue.Queue()
  for i in range(SLOTS):
    w, v = f'{OUT}/w{os.getpid()}_{i}', f'{OUT}/v{os.getpid()}_{i}'
    subprocess.run(f'rm -rf {w} {v}; cp -a /repo {w} && git -C {w} checkout -q -- . && mkdir {v} && '
                   f'cp -a /verif/hkmon /verif/run.sh /verif/KNOWN_FINDINGS.txt {v}/', shell=True, check=True)
    slots.put((w, v))
  counts = dict(tests=0, caught=0, survived=0, inconcl=0)

  def one(m):
    text, desc = m
    w, v = slots.get()
    try:
      open(f'{w}/{file}', 'w').write(text)
      if tests and not os.environ.get('NOTEST'):
        r = ns(w, v, 'cd /repo; export PYTHONPATH=/repo JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0; '
                     f'timeout 300 /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider --tb=no {tests} '
                     + deselect, 400)
        if r.returncode:
          return 'tests', desc, ''
      res = []
      for p in props:
        r = ns(w, v, f'cd /verif && VERIF_STOP_FIRST=1 VERIF_WORKERS={W} bash run.sh {p} quick', 900)
        if r.returncode == 1 and f'VIOLATION property={p} ' in r.stdout:
          first = [l for l in r.stdout.splitlines() if l.startswith('  ')][:1]
          return 'caught', desc, p + str(first)[:150]
        res.append((p, r.returncode))
      if all(c == 0 for _, c in res):
        return 'survived', desc, ''
      return 'inconcl', desc, str(res) + r.stdout[-300:]
    finally:
      open(f'{w}/{file}', 'w').write(src)
      slots.put((w, v))

  with cf.ThreadPoolExecutor(SLOTS) as ex:
    for f in cf.as_completed([ex.submit(one, m) for m in muts]):
      k, desc, extra = f.result()
      counts[k] += 1
      log.write(f'{k.upper()} {desc} {extra}\n')
      log.flush()
  log.write(f'== {spec} {props} {len(muts)}/{total} {counts}\n')
  log.close()
  while not slots.empty():
    w, v = slots.get()
    shutil.rmtree(w)
    shutil.rmtree(v)


if __name__ == '__main__':
  main()
