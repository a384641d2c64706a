"""Mutation sweep: how much of the implementation is bound by the checks.
   python3 tools/mutate.py OUT.jsonl [--n N] [--files f,f] [--jobs J] [--salt S]
Every mutant is written to a scratch copy of /repo; the checks listed for its file are run one after
another (VERIF_REPO) until one reports a violation.  Survivors are then run against the stable tests.
Nothing here is used by a registered check."""
import sys, os, ast, json, hashlib, subprocess, shutil, tempfile, queue, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
PY = '/opt/venv/bin/python'
# file (or file:function) -> properties, most likely killer first
MAP = {
 'ocnn/octree/shuffled_key.py': ['C01'],
 'ocnn/octree/octree.py': ['C02', 'C06', 'C22'],
 'ocnn/octree/octree.py:Octree.build_octree': ['C02', 'C03', 'C04'],
 'ocnn/octree/octree.py:Octree.reset': ['C02', 'C08', 'C05', 'C28'],
 'ocnn/octree/octree.py:Octree.octree_grow_full': ['C02', 'C08'],
 'ocnn/octree/octree.py:Octree.octree_grow': ['C08', 'C27'],
 'ocnn/octree/octree.py:Octree.octree_split': ['C08', 'C27'],
 'ocnn/octree/octree.py:Octree.construct_neigh': ['C06', 'C08'],
 'ocnn/octree/octree.py:Octree.get_neigh': ['C06', 'C22'],
 'ocnn/octree/octree.py:Octree.get_input_feature': ['C04'],
 'ocnn/octree/octree.py:Octree.to_points': ['C04', 'C34'],
 'ocnn/octree/octree.py:Octree.to': ['C28'],
 'ocnn/octree/octree.py:Octree.cuda': ['C28'], 'ocnn/octree/octree.py:Octree.cpu': ['C28'],
 'ocnn/octree/octree.py:Octree.search_key': ['C07'], 'ocnn/octree/octree.py:Octree.search_xyzb': ['C07'],
 'ocnn/octree/octree.py:merge_octrees': ['C05', 'C22'],
 'ocnn/octree/octree.py:init_octree': ['C08', 'C27'],
 'ocnn/octree/points.py': ['C24', 'C25', 'C28', 'C26'],
 'ocnn/octree/points.py:Points.to': ['C28'], 'ocnn/octree/points.py:merge_points': ['C25', 'C05'],
 'ocnn/utils.py': ['C31', 'C33'],
 'ocnn/dataset.py': ['C26', 'C33'],
 'ocnn/nn/octree_conv.py': ['C10', 'C11', 'C12', 'C29', 'C22'],
 'ocnn/nn/octree_dwconv.py': ['C13', 'C12', 'C22'], 'ocnn/nn/octree_gconv.py': ['C13', 'C12'],
 'ocnn/nn/octree2col.py': ['C09', 'C10', 'C11'], 'ocnn/nn/octree_pool.py': ['C14', 'C15'],
 'ocnn/nn/octree_pad.py': ['C16', 'C14'], 'ocnn/nn/octree2vox.py': ['C16'], 'ocnn/nn/octree_align.py': ['C17'],
 'ocnn/nn/octree_interp.py': ['C18', 'C19'], 'ocnn/nn/octree_norm.py': ['C20'], 'ocnn/nn/octree_drop.py': ['C21'],
 'ocnn/modules/modules.py': ['C29', 'C04', 'C22'], 'ocnn/modules/resblocks.py': ['C29'],
 'ocnn/models/autoencoder.py': ['C27', 'C29'], 'ocnn/models/image2shape.py': ['C27', 'C29'], 'ocnn/models/ounet.py': ['C27', 'C29'],
 'ocnn/models/hrnet.py': ['C29'], 'ocnn/models/resnet.py': ['C29'], 'ocnn/models/lenet.py': ['C29'],
 'ocnn/models/segnet.py': ['C29'], 'ocnn/models/unet.py': ['C29'],
 'projects/segmentation.py': ['C30'], 'projects/autoencoder.py': ['C34'], 'projects/completion.py': ['C34'],
 'projects/image2shape.py': ['C34'], 'projects/classification.py': ['C34'],
 'projects/datascts/utils.py': ['C33'], 'projects/datascts/scannet.py': ['C33'], 'projects/datascts/seg_shapenet.py': ['C33'],
 'projects/datascts/ae_shapenet.py': ['C33'], 'projects/datascts/completion.py': ['C33'], 'projects/datascts/image2shape.py': ['C33'],
 'projects/datascts/modelnet40.py': ['C33'], 'projects/datascts/semantic_kitti.py': ['C32', 'C33'], 'projects/tools/utils.py': ['C33'],
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '//', ast.BitAnd: '|', ast.BitOr: '&', ast.LShift: '>>', ast.RShift: '<<', ast.Pow: '*'}
BSYM = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.BitAnd: '&', ast.BitOr: '|', ast.LShift: '<<', ast.RShift: '>>', ast.Pow: '**'}

def mutants(path):
  src = open(os.path.join(R, path)).read()
  tree = ast.parse(src)
  lines = src.splitlines(True)
  off = [0]
  for l in lines: off.append(off[-1] + len(l.encode()))
  bs = src.encode()
  def span(n): return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
  def seg(n): a, b = span(n); return bs[a:b].decode()
  out = []
  def add(n, new, what, stack):
    a, b = span(n)
    if bs[a:b].decode() != new: out.append({'file': path, 'a': a, 'b': b, 'new': new, 'line': n.lineno, 'what': what, 'fn': '.'.join(stack), 'old': bs[a:b].decode()[:80]})
  def visit(n, stack, doc=False):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
      if n.name in ('extra_repr', '__repr__'): return
      st = stack + [n.name]
      for ch in ast.iter_child_nodes(n): visit(ch, st)
      return
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str): return
    if isinstance(n, (ast.Import, ast.ImportFrom, ast.Assert, ast.Raise)): return
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
      add(n, seg(n.left) + ' ' + CMP[type(n.ops[0])] + ' ' + seg(n.comparators[0]), 'cmp', stack)
    if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
      add(n, seg(n.left) + ' ' + BIN[type(n.op)] + ' ' + seg(n.right), 'bin', stack)
    if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
      add(n, seg(n.target) + ' ' + BIN[type(n.op)] + '= ' + seg(n.value), 'aug', stack)
      add(n, 'pass', 'del', stack)
    if isinstance(n, ast.Constant):
      v = n.value
      if isinstance(v, bool): add(n, str(not v), 'bool', stack)
      elif isinstance(v, int): add(n, str(v + 1), 'int+', stack); add(n, str(v - 1) if v > 0 else '2', 'int-', stack)
      elif isinstance(v, float): add(n, repr(v * 2 if v else 1.0), 'float', stack)
    if isinstance(n, ast.BoolOp):
      op = ' or ' if isinstance(n.op, ast.And) else ' and '
      add(n, op.join('(' + seg(v) + ')' for v in n.values), 'bool', stack)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)): add(n, seg(n.operand), 'not', stack)
    if isinstance(n, (ast.If, ast.IfExp)): add(n.test, 'not (' + seg(n.test) + ')', 'if', stack)
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): add(n, 'pass', 'del', stack)
    if isinstance(n, ast.Assign) and len(n.targets) == 1:
      t = seg(n.targets[0])
      names = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
      if (isinstance(n.targets[0], ast.Name) and t in names) or isinstance(n.targets[0], ast.Subscript) or (isinstance(n.targets[0], ast.Attribute) and '__init__' not in stack): add(n, 'pass', 'del', stack)
    if isinstance(n, ast.Call):
      if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords and n.func.attr in ('clone', 'contiguous', 'long', 'float', 'detach', 'copy', 'int', 'squeeze', 'flatten'):
        add(n, seg(n.func.value), 'drop.' + n.func.attr, stack)
      if len(n.args) >= 2:
        for i in range(len(n.args) - 1):
          if all(isinstance(x, (ast.Name, ast.Attribute)) for x in n.args[i:i + 2]):
            a, b = span(n.args[i])[0], span(n.args[i + 1])[1]
            out.append({'file': path, 'a': a, 'b': b, 'new': seg(n.args[i + 1]) + ', ' + seg(n.args[i]), 'line': n.lineno, 'what': 'swap', 'fn': '.'.join(stack), 'old': bs[a:b].decode()[:80]})
    for ch in ast.iter_child_nodes(n): visit(ch, stack)
  for ch in tree.body: visit(ch, [])
  return out

def props(m):
  f, fn = m['file'], m['fn']
  parts = fn.split('.')
  for k in range(len(parts), 0, -1):
    q = f + ':' + '.'.join(parts[:k])
    if q in MAP: return MAP[q]
  return MAP.get(f, [])

def tests(repo, tmp):
  x = os.path.join(tmp, 'junit.xml')
  e = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='4', CUDA_VISIBLE_DEVICES='')
  subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '--junitxml=' + x, 'test'],
                 cwd=repo, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
  import xml.etree.ElementTree as ET
  ok = set()
  for t in ET.parse(x).getroot().iter('testcase'):
    if not any(c.tag in ('failure', 'error', 'skipped') for c in t): ok.add(t.get('classname') + '::' + t.get('name'))
  return not (set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - ok)

def main():
  a = sys.argv[1:]
  outf = a[0]
  opt = lambda k, d: a[a.index(k) + 1] if k in a else d
  N, J, salt = int(opt('--n', '200')), int(opt('--jobs', '2')), opt('--salt', '0')
  files = opt('--files', '')
  files = files.split(',') if files else [f for f in {k.split(':')[0] for k in MAP}]
  ms = []
  for f in files: ms += mutants(f)
  for m in ms: m['id'] = hashlib.md5(('%s|%s|%s|%s' % (m['file'], m['a'], m['b'], m['new'])).encode()).hexdigest()[:10]
  ms.sort(key=lambda m: hashlib.md5((salt + m['id']).encode()).hexdigest())
  done = set()
  if os.path.exists(outf): done = {json.loads(l)['id'] for l in open(outf)}
  todo = [m for m in ms if m['id'] not in done][:N]
  print(len(ms), 'mutants,', len(todo), 'to run', flush=True)
  q = queue.Queue()
  for m in todo: q.put(m)
  lock = threading.Lock()
  def worker():
    tmp = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    repo = tmp + '/repo'
    subprocess.check_call(['cp', '-a', R, repo])
    while True:
      try: m = q.get_nowait()
      except queue.Empty: break
      p = os.path.join(repo, m['file'])
      src = open(os.path.join(R, m['file']), 'rb').read()
      open(p, 'wb').write(src[:m['a']] + m['new'].encode() + src[m['b']:])
      t0 = time.time(); kill = None; log = ''
      try: compile(open(p).read(), p, 'exec')
      except SyntaxError: kill = 'syntax'
      if not kill:
        for pid in props(m):
          e = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=tmp, VERIF_SEED='1')
          try:
            r = subprocess.run([sys.executable, V + '/check.py', pid], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
            rc, log = r.returncode, r.stdout
          except subprocess.TimeoutExpired: kill = pid + ':timeout'; break
          if rc == 1: kill = pid; break
          if rc != 0: kill = pid + ':error'; break
        m['log'] = log[-160:] if kill and kill != 'syntax' else ''
        if kill is None: m['tests'] = tests(repo, tmp)
      m['kill'] = kill; m['t'] = round(time.time() - t0)
      open(p, 'wb').write(src)
      with lock:
        open(outf, 'a').write(json.dumps(m) + '\n')
        if kill is None: print('SURVIVED %s:%d [%s] %s  %r -> %r tests=%s' % (m['file'], m['line'], m['what'], m['fn'], m['old'], m['new'], m['tests']), flush=True)
    shutil.rmtree(tmp, ignore_errors=True)
  ts = [threading.Thread(target=worker) for _ in range(J)]
  [t.start() for t in ts]; [t.join() for t in ts]
  rs = [json.loads(l) for l in open(outf)]
  k = sum(1 for r in rs if r['kill'] and r['kill'] != 'syntax'); s = sum(1 for r in rs if not r['kill'])
  print('killed %d survived %d' % (k, s))
main()
