"""Drivers for the command line tools (C35, C36).  Every tool is executed as a script from a copy
in a scratch directory, so all the files it reads and writes are below that directory; downloads
are replaced by archives prepared by the generator and deletions outside the scratch directory
are refused."""
import os, sys, io, json, math, shutil, types, zipfile, runpy, random, contextlib, re
import numpy as np
import torch
from rec import Rec, T, dig
from gen import *
from drv_eval import scratch, PS, PU, REPO
NO = {'k': 'none'}
TOOLS = os.path.join(REPO, 'projects', 'tools')
def call(r, ev, fn, args=()): return r.call(ev, fn, args=args, m='tools')

def ball(points, details=False, **kw):
  """stand-in for the (absent) cyminiball package: reports that it failed"""
  return np.zeros(3), 1.0, {'is_valid': False}

class guarded:
  """file removals are allowed below the scratch directory only"""
  def __init__(self, d): self.d = os.path.realpath(d)
  def ok(self, p): return os.path.realpath(os.path.join(os.getcwd(), os.fspath(p))).startswith(self.d + os.sep)
  def wrap(self, f):
    def g(p, *a, **k):
      if not self.ok(p): raise PermissionError('outside of the scratch directory: %s' % p)
      return f(p, *a, **k)
    return g
  def __enter__(self):
    self.old = {n: getattr(os, n) for n in ('remove', 'unlink', 'rmdir')}
    self.rm = shutil.rmtree; self.cwd = os.getcwd()
    for n, f in self.old.items(): setattr(os, n, self.wrap(f))
    shutil.rmtree = self.wrap(self.rm)
    os.chdir(self.d)
  def __exit__(self, *a):
    for n, f in self.old.items(): setattr(os, n, f)
    shutil.rmtree = self.rm; os.chdir(self.cwd)

def tool(d, name, argv, main=True, prepared=None):
  """run the script `name` from <d>/tools; returns (its globals, its output)"""
  td = os.path.join(d, 'tools')
  if not os.path.isdir(td):
    os.makedirs(td)
    for f in os.listdir(TOOLS):
      if f.endswith('.py'): shutil.copy(os.path.join(TOOLS, f), td)
  if 'cyminiball' not in sys.modules:
    sys.modules['cyminiball'] = types.SimpleNamespace(compute=ball)
  import wget
  def fetch(url, out=None, **kw):
    for k, v in (prepared or {}).items():
      if k in url: shutil.copy(v, out); return out
    raise OSError('no network: %s' % url)
  old = sys.argv, list(sys.path), wget.download
  sys.argv = [os.path.join(td, name)] + [str(a) for a in argv]
  sys.path.insert(0, td); wget.download = fetch
  sys.modules.pop('utils', None)
  out = io.StringIO()
  try:
    with guarded(d), contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
      try: g = runpy.run_path(os.path.join(td, name), run_name='__main__' if main else 'tool')
      except SystemExit as ex: raise RuntimeError('exit %s' % ex.code)
  finally:
    sys.argv, sys.path[:], wget.download = old
    sys.modules.pop('utils', None)
  return g, out.getvalue()

def tree(root):
  out = []
  for b, _, fs in os.walk(root): out += [os.path.relpath(os.path.join(b, f), root) for f in fs]
  return sorted(out)
def write(path, text):
  os.makedirs(os.path.dirname(path), exist_ok=True)
  with open(path, 'w') as f: f.write(text)
def read(path):
  with open(path) as f: return f.read()
def lines(path): return read(path).split('\n')
def full(path):
  """the lines of a file in which each line ends with a newline"""
  t = read(path)
  return t.split('\n')[:-1] if t == '' or t.endswith('\n') else ['unterminated'] + t.split('\n')
def joined(path):
  t = read(path)
  return t.split('\n') if t else []

def ply(path, cols, faces=None):
  from plyfile import PlyData, PlyElement
  n = len(cols[0][2])
  a = np.zeros(n, dtype=[(c, t) for c, t, _ in cols])
  for c, _, v in cols: a[c] = v
  els = [PlyElement.describe(a, 'vertex')]
  if faces is not None:
    f = np.zeros(len(faces), dtype=[('vertex_indices', 'i4', (3,))]); f['vertex_indices'] = faces
    els.append(PlyElement.describe(f, 'face'))
  os.makedirs(os.path.dirname(path), exist_ok=True)
  PlyData(els).write(path)
def rply(path):
  from plyfile import PlyData
  v = PlyData.read(path)['vertex'].data
  return {n: np.asarray(v[n]) for n in v.dtype.names}
def col(p, names): return np.stack([p[n].astype(np.float64) for n in names], 1)

CLS20 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 24, 28, 33, 34, 36, 39]
CATS = [['wall', 1], ['chair', 2], ['floor', 3], ['guitar', 39], ['person', 31], ['rack', 87], ['odd', 13], ['odd2', 12],
        ['chair', 5], ['mat', 1191], ['none', 0], ['blanket', 331], ['box', 29], ['toilet paper', 139], ['weird', 2000],
        ['wall lamp', 9], ['odd3', 20], ['gap', 43], ['chair back', 7], ['a wall', 24]]

def hexname(rng, n=8): return ''.join(rng.choice('0123456789abcdef') for _ in range(n))
def words(rng, n, pre=''):
  out = set()
  while len(out) < n: out.add(pre + ''.join(rng.choice('abcdefgh') for _ in range(rng.randint(2, 4))))
  return sorted(out)

# ---------------------------------------------------------------- C35
def drive_C35(tier):
  def scan(rng):
    with scratch() as d:
      n200 = rng.random() < .5; al = rng.random() < .5; suf = rng.choice(['.ply', '.npz']); un = 8
      src, dst = os.path.join(d, 'in'), os.path.join(d, 'out')
      os.makedirs(dst); os.makedirs(src + '/scans'); os.makedirs(src + '/scans_test')
      table = rng.sample(CATS, rng.randint(3, len(CATS)))
      tsv = 'id\traw_category\tcategory\n' + ''.join('%d\t%s\tx\n' % (i, c) for c, i in table)
      with zipfile.ZipFile(dst + '/filelist.zip', 'w') as z: z.writestr('scannetv2-labels.combined.tsv', tsv)
      evs, skip = [], []
      for k in range(rng.randint(1, 3)):
        train = rng.random() < .7
        sid = 'scene%04d_%02d' % (rng.randrange(100) * 10 + k, rng.randrange(3))
        base = os.path.join(src, 'scans' if train else 'scans_test', sid, sid)
        n = rng.randint(3, 9)
        P = [[rng.randint(-24, 24) for _ in range(3)] for _ in range(n)]
        F = [[rng.randrange(n) for _ in range(3)] for _ in range(rng.randint(1, 8))]
        a = rng.randrange(256)
        colr = [[rng.randrange(256) for _ in range(3)] + [a] for _ in range(n)]
        raw = [rng.choice(CLS20 + [13, 15, 40, 500]) for _ in range(n)]
        seg = [rng.randint(0, 6) for _ in range(n)]
        groups = [[rng.choice([c for c, _ in CATS] + ['unknown']), rng.sample(range(8), rng.randint(0, 4))] for _ in range(rng.randint(2, 9))]
        perm = rng.sample(range(3), 3)
        R = [[rng.choice([-1, 1]) if c == perm[row] else 0 for c in range(3)] for row in range(3)]
        t = [rng.randint(-16, 16) for _ in range(3)]
        vc = [('xyz'[j], 'f4', [p[j] / un for p in P]) for j in range(3)] + \
             [(c, 'u1', [q[j] for q in colr]) for j, c in enumerate(['red', 'green', 'blue', 'alpha'])]
        ply(base + '_vh_clean_2.ply', vc, F)
        mat = [v for row in range(3) for v in (R[row] + [t[row] / un])] + [0, 0, 0, 1]
        write(base + '.txt', 'sceneType = X\naxisAlignment = %s \ncolorHeight = 3\n' % ' '.join('%.6f' % v for v in mat))
        if train and not n200: ply(base + '_vh_clean_2.labels.ply', vc + [('label', 'u2', raw)], F)
        if train and n200:
          write(base + '_vh_clean_2.0.010000.segs.json', json.dumps({'segIndices': seg}))
          write(base + '_vh_clean.aggregation.json', json.dumps({'segGroups': [{'label': g, 'segments': s} for g, s in groups]}))
        out = os.path.join('train' if train else 'test', sid)
        if rng.random() < .2:                     # an output of an earlier run is left alone
          write(os.path.join(dst, out + suf), 'old'); skip.append(out + suf)
          continue
        evs.append((sid, out, {'e': 'scan', 'un': un, 'P': P, 'al': al, 'R': R, 't': t, 'F': F, 'col': colr, 'train': train, 'n200': n200,
                    'raw': raw, 'seg': seg, 'groups': groups, 'table': table}))
      before = {f: dig(read(os.path.join(dst, f))) for f in skip}
      want = sorted([o + suf for _, o, _ in evs] + [o + '.txt' for _, o, e in evs if e['train']] + skip + ['filelist.zip', 'scannetv2-labels.combined.tsv'])
      r = Rec(); err = ['']
      def run(ev):
        tool(d, 'seg_scannet.py', ['--path_in', src, '--path_out', dst, '--suffix_out', suf] + ['--align_axis'] * al + ['--scannet200'] * n200)
        raise StopIteration
      try: run(None)
      except StopIteration: pass
      except Exception as ex: err[0] = '%s: %s' % (type(ex).__name__, ex)
      found = tree(dst)
      for sid, out, ev in evs:
        def go(ev, out=out):
          if err[0]: raise RuntimeError(err[0])
          ev['found'], ev['xfound'] = found, want
          ev['kept'] = [[f, before[f], dig(read(os.path.join(dst, f)))] for f in skip]
          f = os.path.join(dst, out + suf)
          if suf == '.ply':
            p = rply(f)
            q = {'pts': T(col(p, 'xyz'), 'f', PS), 'nrm': T(col(p, ['nx', 'ny', 'nz']), 'f'), 'col': T(col(p, ['red', 'green', 'blue'])), 'lab': T(p['label'].astype(np.int64))}
          else:
            p = np.load(f)
            q = {'pts': T(p['points'], 'f', PS), 'nrm': T(p['normals'], 'f'), 'col': T(p['colors']), 'lab': T(p['labels'].astype(np.int64))}
          ev['out'] = q
          x = os.path.join(dst, out + '.txt')
          ev['txt'] = T(np.array([int(v) for v in full(x)])) if os.path.exists(x) else NO
        call(r, ev, go)
      return r.ev
  def chunks(rng):
    from pathlib import Path
    with scratch() as d:
      r = Rec(); un = 8
      big = [rng.choice([0, 40, 80, 100, 128]) for _ in range(3)]
      style = rng.choice(['one', 'one', 'many', 'small'])
      if style == 'one':
        a = rng.randrange(3); big = [min(b, 64) for b in big]; big[a] = rng.choice([80, 81, 120, 121, 168, 200, 600])
      if style == 'small': big = [min(b, 79) for b in big]
      lo = [rng.choice([0, -40, 33, -200, 160, 7]) for _ in range(3)]
      G = []
      for i in range(rng.randint(2, 6)):
        p = [l + (rng.choice([0, b, rng.randint(0, b)]) if b else 0) for l, b in zip(lo, big)]
        if i == 0: p = list(lo)
        if i == 1: p = [l + b for l, b in zip(lo, big)]
        if p not in [g[0] for g in G]: G.append([p, rng.choice([1, 5, 2999, 3000, 3001, 1500, 1700])])
      idx = [g for g, (_, c) in enumerate(G) for _ in range(c)]
      rng.shuffle(idx)
      xyz = np.array([G[g][0] for g in idx], dtype=np.float64) / un
      pc = np.concatenate([xyz, np.zeros((len(idx), 3)), np.array([[i % 256, i // 256 % 256, g, 1] for i, g in enumerate(idx)])], 1).astype(np.float32)
      ev = {'e': 'chunks', 'un': un, 'G': G}
      def go(ev):
        g, _ = tool(d, 'seg_scannet.py', [], main=False)
        os.makedirs(d + '/out')
        g['generate_chunks'](Path(d + '/out/scene0001_00.ply'), pc)
        fs = tree(d + '/out')
        ids = sorted(int(re.match(r'scene0001_00\.chunk_(\d+)\.mask\.npy$', f).group(1)) for f in fs if f.endswith('.npy'))
        assert sorted(fs) == sorted(['scene0001_00.chunk_%d%s' % (i, s) for i in range(len(ids)) for s in ('.mask.npy', '.ply')]), fs
        gi = np.array(idx)
        ev['masks'], ev['rows'], ev['order'] = [], [], True
        for i in ids:
          m = np.load(d + '/out/scene0001_00.chunk_%d.mask.npy' % i)
          ev['masks'].append([int((gi[m] == g).sum()) for g in range(len(G))])
          p = rply(d + '/out/scene0001_00.chunk_%d.ply' % i)
          w = p['blue'].astype(int)
          ev['rows'].append([int((w == g).sum()) for g in range(len(G))])
          a = np.stack([p[k].astype(np.float32) for k in ('x', 'y', 'z', 'nx', 'ny', 'nz', 'red', 'green', 'blue', 'label')], 1)
          ev['order'] = bool(ev['order'] and m.shape == (len(idx),) and a.shape == pc[m].shape and (a == pc[m]).all())
      call(r, ev, go, args=[('cloud', pc)])
      return r.ev
  def outseg(rng):
    with scratch() as d:
      r = Rec()
      n200 = rng.random() < .3
      K = rng.choice([2, 4, 21]) if not n200 else rng.choice([3, 23, 201])
      src, prd, dst = d + '/in', d + '/pred', d + '/out'
      os.makedirs(src); os.makedirs(prd)
      files, size, jobs = [], {}, []
      for s in ['scene%04d_%02d' % (i, rng.randrange(4)) for i in range(rng.randint(1, 3))]:
        n = rng.randint(1, 5); size[s] = n
        nch = rng.choice([0, 0, 1, 2, 3, 12, 13])
        for k in range(max(nch, 1)):
          pos = sorted(rng.sample(range(n), rng.randint(1, n))) if nch else list(range(n))
          w = [[rng.randint(0, 15) for _ in range(K)] for _ in pos]
          name = s + ('.chunk_%d' % k if nch else '')
          jobs.append((name, s, pos, w, n, nch))
      rng.shuffle(jobs)
      for name, s, pos, w, n, nch in jobs:
        files.append([s, pos, w])
        np.savez(os.path.join(prd, name + '.eval.npz'), prob=np.array(w, dtype=np.float32) / 16)
        if nch:
          m = np.zeros(n, dtype=bool); m[pos] = True
          np.save(os.path.join(src, name + '.mask.npy'), m)
      write(d + '/list.txt', ''.join('%s.ply 0\n' % j[0] for j in jobs))
      def go(ev):
        tool(d, 'seg_scannet.py', ['--path_in', src, '--path_pred', prd, '--path_out', dst, '--filelist', d + '/list.txt', '--run', 'generate_output_seg'] + ['--scannet200'] * n200)
        ev['out'] = [[f[:-4], T(np.array([int(v) for v in full(os.path.join(dst, f))]))] for f in tree(dst)]
      call(r, {'e': 'outseg', 'n200': n200, 'K': K, 'files': files, 'size': size}, go)
      return r.ev
  def scaniou(rng):
    with scratch() as d:
      r = Rec(); n200 = rng.random() < .3
      os.makedirs(d + '/gt'); os.makedirs(d + '/pred')
      pool = rng.sample(CLS20[1:], rng.randint(2, 6)) + ([1163, 87, 370] if n200 else [])
      files = []
      for i in range(rng.randint(1, 4)):
        n = rng.randint(2, 14)
        gt = [rng.choice(pool + [0, 500]) for _ in range(n)]; gt[0] = pool[0]
        pr = [g if rng.random() < .6 and g else rng.choice(pool + [0]) for g in gt]
        files.append([gt, pr])
        write(d + '/gt/s%d.txt' % i, '\n'.join(map(str, gt)) + '\n'); write(d + '/pred/s%d.txt' % i, '\n'.join(map(str, pr)) + '\n')
      write(d + '/pred/other.npz', 'x')
      def go(ev):
        _, o = tool(d, 'seg_scannet.py', ['--path_in', d + '/gt', '--path_pred', d + '/pred', '--run', 'calc_iou'] + ['--scannet200'] * n200)
        ev['iou'] = int(round(float(re.findall(r'^IoU: ([\d.]+)$', o, re.M)[-1]) * 1e6))
        ev['accu'] = int(round(float(re.findall(r'^Accu: ([\d.]+)$', o, re.M)[-1]) * 1e6))
      call(r, {'e': 'scaniou', 'n200': n200, 'files': files}, go)
      return r.ev
  def kitti(rng):
    with scratch() as d:
      r = Rec()
      seqs = {'%02d' % s: ['%06d.bin' % i for i in sorted(rng.sample(range(2000), rng.randint(0, 4)))] for s in range(22)}
      os.makedirs(d + '/k')
      with zipfile.ZipFile(d + '/k/data_odometry_velodyne.zip', 'w') as z:
        for s, fs in seqs.items():
          z.writestr('dataset/sequences/%s/velodyne/' % s, '')
          for f in rng.sample(fs, len(fs)): z.writestr('dataset/sequences/%s/velodyne/%s' % (s, f), 'x')
      with zipfile.ZipFile(d + '/k/data_odometry_labels.zip', 'w') as z:
        z.writestr('dataset/sequences/00/labels/000000.label', 'y')
      def go(ev):
        tool(d, 'seg_kitti.py', ['--root_folder', d + '/k'])
        ev['found'] = sorted(f for f in tree(d + '/k') if f.endswith('.txt'))
        ev['out'] = [[s, full(d + '/k/' + s + '.txt')] for s in ('train', 'val', 'test', 'train_val')]
      call(r, {'e': 'kittilist', 'seqs': seqs}, go)
      return r.ev
  def offtext(lo, hi, un, glue):
    v = [[(lo, hi)[(k >> a) & 1][a] / un for a in range(3)] for k in range(8)]
    q = [(0, 4, 6, 2), (1, 3, 7, 5), (0, 1, 5, 4), (2, 6, 7, 3), (0, 2, 3, 1), (4, 5, 7, 6)]
    f = [t for a, b, c, e in q for t in ((a, b, c), (a, c, e))]
    return v, f, 'OFF%s%d %d 0\n' % (glue, len(v), len(f)) + ''.join('%g %g %g\n' % tuple(p) for p in v) + ''.join('3 %d %d %d\n' % t for t in f)
  def corner(rng, a0=8):
    lo = [rng.randint(-40, 10) for _ in range(3)]
    return lo, [l + rng.randint(a0, 60) for l in lo]
  def m40(rng):
    with scratch() as d:
      r = Rec()
      np.random.seed(rng.randrange(1 << 30))
      root = d + '/data/ModelNet40'; os.makedirs(root)
      names = sorted(words(rng, 38) + rng.choice([['coffee', 'office'], ['ply', 'off_x'], ['night_stand', 'tv_stand']]))
      num = rng.choice([5, 12, 24]); al, norm = rng.random() < .5, rng.random() < .5
      folder = 'ModelNet40.ply' + '.y' * al + '.normalize' * norm
      dirs, meshes, want = [], [], []
      with zipfile.ZipFile(root + '/ModelNet40.zip', 'w') as z:
        for c in names:
          z.writestr('ModelNet40/%s/train/' % c, ''); z.writestr('ModelNet40/%s/test/' % c, '')
        for c in rng.sample([c for c in names if c not in ('coffee', 'off_x', 'tv_stand')], 2) + [c for c in names if c in ('coffee', 'off_x', 'tv_stand')]:
          for s in ('train', 'test'):
            if rng.random() < .7:
              lo, hi = corner(rng)
              z.writestr('ModelNet40/%s/%s/%s_0001.off' % (c, s, c), offtext(lo, hi, 8, rng.choice(['\n', '\n', '', ' ']))[2])
              z.writestr('ModelNet40/%s/%s/.DS_Store' % (c, s), 'x')
              meshes.append(('%s/%s/%s_0001.ply' % (c, s, c), lo, hi)); want.append('%s/%s/%s_0001.ply' % (c, s, c))
      # the folders of the samples exist even when they are empty; more samples from earlier runs
      for c in names:
        got = []
        for s in ('train', 'test'):
          sub = '%s/%s/%s' % (root, folder, c + '/' + s); os.makedirs(sub)
          fs = ['%s_%04d.ply' % (c, i) for i in rng.sample(range(2, 999), rng.choice([0, 0, 1, 2, 3, 11]))]
          for f in fs: write(os.path.join(sub, f), 'x'); want.append('%s/%s/%s' % (c, s, f))
          if rng.random() < .2: write(os.path.join(sub, 'a.txt'), 'x'); want.append('%s/%s/a.txt' % (c, s))
          got.append(sorted(fs + [os.path.basename(m[0]) for m in meshes if m[0].startswith(c + '/' + s)]))
        dirs.append([c] + got)
      err = ['']
      try: tool(d, 'cls_modelnet.py', ['--sample_num', num, '--align_y', str(al).lower(), '--normalize', str(norm).lower()])
      except Exception as ex: err[0] = '%s: %s' % (type(ex).__name__, ex)
      def lists(ev):
        if err[0]: raise RuntimeError(err[0])
        ld = root + '/filelist'
        ev['found'] = tree(ld)
        ev['xfound'] = sorted(['m40_train.txt', 'm40_test.txt', 'm40_1.00_test.txt'] + ['m40_%s_train.txt' % p for p in ('0.01', '0.02', '0.05', '0.10', '0.20', '0.50', '1.00')])
        ev['out'] = [[s, 100, full('%s/m40_%s.txt' % (ld, s))] for s in ('train', 'test')] + [['test', 100, full(ld + '/m40_1.00_test.txt')]] + \
                    [['train', p, full('%s/m40_%.02f_train.txt' % (ld, p / 100))] for p in (1, 2, 5, 10, 20, 50, 100)]
      call(r, {'e': 'm40list', 'dirs': dirs}, lists)
      for f, lo, hi in meshes:
        def go(ev, f=f):
          if err[0]: raise RuntimeError(err[0])
          ev['found'], ev['xfound'] = tree(root + '/' + folder), sorted(want)
          p = rply(os.path.join(root, folder, f))
          ev['pts'], ev['nrm'] = T(col(p, 'xyz'), 'f', PS), T(col(p, ['nx', 'ny', 'nz']), 'f')
        call(r, {'e': 'mesh', 'lo': lo, 'hi': hi, 'un': 8, 'num': num, 'norm': norm, 'al': al}, go)
      return r.ev
  IMG = ['02691156', '02828884', '02933112', '02958343', '03001627', '03211117', '03636649', '03691459', '04090263', '04256520', '04379243', '04401088', '04530566']
  def img(rng):
    with scratch() as d:
      r = Rec()
      np.random.seed(rng.randrange(1 << 30))
      root = d + '/data/ShapeNetV1'; num = rng.choice([4, 9])
      meshes, want, cats = [], [], []
      for c in IMG:
        os.makedirs('%s/shapenet.mesh/%s' % (root, c)); os.makedirs('%s/renderings/%s' % (root, c))
        nm = words(rng, rng.choice([0, 0, 1, 2, 4]), 'm')
        for x in nm if len(meshes) < 4 else []:
          lo, hi = corner(rng)
          v, f, _ = offtext(lo, hi, 8, '\n')
          write('%s/shapenet.mesh/%s/%s.obj' % (root, c, x), ''.join('v %g %g %g\n' % tuple(p) for p in v) + ''.join('f %d %d %d\n' % tuple(i + 1 for i in t) for t in f))
          meshes.append((c, x, lo, hi))
      err = ['']
      try: tool(d, 'image2shape.py', ['--run', 'mesh2points', '--sample_num', num])
      except Exception as ex: err[0] = '%s: %s' % (type(ex).__name__, ex)
      for c, x, lo, hi in meshes:
        def go(ev, c=c, x=x):
          if err[0]: raise RuntimeError(err[0])
          ev['found'], ev['xfound'] = tree(root + '/points.ply'), sorted('%s/%s.ply' % m[:2] for m in meshes)
          p = rply('%s/points.ply/%s/%s.ply' % (root, c, x))
          ev['pts'], ev['nrm'] = T(col(p, 'xyz'), 'f', PS), T(col(p, ['nx', 'ny', 'nz']), 'f')
        call(r, {'e': 'mesh', 'lo': lo, 'hi': hi, 'un': 8, 'num': num, 'norm': False, 'al': False}, go)
      if err[0]: return r.ev
      shutil.rmtree(root + '/points.ply')
      x = []
      for c in IMG:
        os.makedirs('%s/points.ply/%s' % (root, c), exist_ok=True)
        pool = words(rng, rng.choice([1, 2, 6, 11]), '')
        P = sorted(rng.sample(pool, rng.randint(0, len(pool)))); I = sorted(rng.sample(pool, rng.randint(0, len(pool))))
        if rng.random() < .5: P = I = pool
        for f in P:
          m = rng.randint(1, 3)
          pts = [[rng.randint(-64, 64) / 64 for _ in range(3)] for _ in range(m)]; nr = [[rng.randint(-16, 16) / 16 for _ in range(3)] for _ in range(m)]
          ply('%s/points.ply/%s/%s.ply' % (root, c, f), [('xyz'[j], 'f4', [p[j] for p in pts]) for j in range(3)] + [('n' + 'xyz'[j], 'f4', [p[j] for p in nr]) for j in range(3)])
          x.append(['%s/%s.npz' % (c, f), T(np.array(pts), 'f', PS), T(np.array(nr), 'f', PS)])
        for f in I: os.makedirs('%s/renderings/%s/%s' % (root, c, f), exist_ok=True)
        cats.append([c, I, P])
      def conv(ev):
        tool(d, 'image2shape.py', ['--run', 'ply2npz'])
        ev['out'] = npz(root + '/points.npz')
      call(r, {'e': 'conv', 'x': x}, conv)
      def lst(ev):
        tool(d, 'image2shape.py', ['--run', 'create_filelist'])
        ev['train'], ev['test'] = [joined(root + '/filelist/image2shape.%s.txt' % s) for s in ('train', 'test')]
      call(r, {'e': 'imglist', 'cats': cats}, lst)
      return r.ev
  def npz(root):
    out = []
    for f in tree(root):
      z = np.load(os.path.join(root, f))
      out.append([f, T(z['points'].astype(np.float64), 'f', PS), T(z['normals'].astype(np.float64), 'f', PS)])
    return out
  def ae(rng):
    with scratch() as d:
      r = Rec()
      root = d + '/data/ae_shapenet'; os.makedirs(root); st = d + '/stage'
      x = {'shape': [], 'test.scans': []}; names = {}
      for p in x:
        for c in words(rng, rng.randint(1, 3), 'c'):
          os.makedirs('%s/%s.ply/%s' % (st, p, c))
          for f in words(rng, rng.randint(0, 3), 's'):
            m = rng.randint(1, 4)
            pts = [[rng.randint(-6400, 6400) / 64 for _ in range(3)] for _ in range(m)]; nr = [[rng.randint(-16, 16) / 16 for _ in range(3)] for _ in range(m)]
            ply('%s/%s.ply/%s/%s.ply' % (st, p, c, f), [('xyz'[j], 'f4', [q[j] for q in pts]) for j in range(3)] + [('n' + 'xyz'[j], 'f4', [q[j] for q in nr]) for j in range(3)])
            x[p].append(['%s/%s.npz' % (c, f), T(np.array(pts), 'f', PS), T(np.array(nr), 'f', PS)])
      for l in ('filelist_test', 'filelist_train', 'filelist_test_scans'):
        names[l] = ['%s/%s' % (rng.choice('abc') * 3, hexname(rng)) for _ in range(rng.randint(0, 6))]
        write('%s/%s.txt' % (st, l), ''.join('%s.points 0\n' % n for n in names[l]))
      with zipfile.ZipFile(d + '/a.zip', 'w') as z:
        for b, ds, fs in os.walk(st):
          for q in ds: z.write(os.path.join(b, q), os.path.relpath(os.path.join(b, q), st))
          for q in fs: z.write(os.path.join(b, q), os.path.relpath(os.path.join(b, q), st))
      err = ['']
      try: tool(d, 'ae_shapenet.py', [], prepared={'ocnn_completion.zip': d + '/a.zip'})
      except Exception as ex: err[0] = '%s: %s' % (type(ex).__name__, ex)
      for p in x:
        def go(ev, p=p):
          if err[0]: raise RuntimeError(err[0])
          ev['out'] = npz('%s/%s.npz' % (root, p))
        call(r, {'e': 'conv', 'x': x[p]}, go)
      for l in names:
        def go(ev, l=l):
          if err[0]: raise RuntimeError(err[0])
          ev['out'] = [[s, full('%s/%s%s.txt' % (root, l, s))] for s in ('.npz', '.ply')]
          ev['same'] = read('%s/%s.txt' % (root, l)) == read('%s/%s.txt' % (st, l))
        call(r, {'e': 'aelist', 'names': names[l]}, go)
      return r.ev
  SEG = ['02691156', '02773838', '02954340', '02958343', '03001627', '03261776', '03467517', '03624134',
         '03636649', '03642806', '03790512', '03797390', '03948459', '04099429', '04225987', '04379243']
  def segsh(rng):
    with scratch() as d:
      r = Rec()
      root = d + '/data/shapenet_segmentation'; zn = 'shapenetcore_partanno_segmentation_benchmark_v0_normal'
      lists = [[], [], []]; x, fx = [], []
      with zipfile.ZipFile(d + '/s.zip', 'w') as z:
        for k, c in enumerate(SEG):
          z.writestr('%s/%s/' % (zn, c), '')
          for _ in range(rng.choice([0, 1, 1, 2])):
            f = 'x' + hexname(rng); m = rng.randint(2, 5)
            pts = [[rng.randint(-64, 64) / 64 for _ in range(3)] for _ in range(m)]; nr = [[rng.randint(-16, 16) / 16 for _ in range(3)] for _ in range(m)]
            top = [4, 2, 2, 4, 4, 3, 3, 2, 4, 2, 6, 2, 3, 3, 3, 3]
            lab = [sum(top[:k]) + rng.randrange(top[k]) for _ in range(m)]
            z.writestr('%s/%s/%s.txt' % (zn, c, f), ''.join(' '.join('%.6f' % v for v in p + n + [l]) + '\n' for p, n, l in zip(pts, nr, lab)))
            x.append({'c': k + 1, 'pts': T(np.array(pts), 'f', PS)['v'], 'nrm': T(np.array(nr), 'f', PS)['v'], 'lab': lab}); fx.append('%s/%s.ply' % (c, f))
          for l in lists:
            for _ in range(rng.choice([0, 1, 2])): l.append([c, 'y' + hexname(rng)])
        for l, s in zip(lists, ('train', 'val', 'test')):
          rng.shuffle(l)
          z.writestr('%s/train_test_split/shuffled_%s_file_list.json' % (zn, s), json.dumps(['shape_data/%s/%s' % (c, f) for c, f in l]))
      err = ['']
      try: tool(d, 'seg_shapenet.py', [], prepared={zn: d + '/s.zip'})
      except Exception as ex: err[0] = '%s: %s' % (type(ex).__name__, ex)
      def plys(ev):
        if err[0]: raise RuntimeError(err[0])
        got = tree(root + '/points')
        assert got == sorted(fx), got
        ev['out'] = []
        for f in fx:
          p = rply(os.path.join(root, 'points', f))
          ev['out'].append({'pts': T(col(p, 'xyz'), 'f', PS), 'nrm': T(col(p, ['nx', 'ny', 'nz']), 'f', PS), 'lab': T(p['label'].astype(np.int64))})
      call(r, {'e': 'segply', 'x': x}, plys)
      def lst(ev):
        if err[0]: raise RuntimeError(err[0])
        want = ['%s_%s.txt' % (c, s) for c in SEG for s in ('test', 'train_val')]
        ev['stray'] = len(set(tree(root + '/filelist')) - set(want))
        ev['out'] = [[k + 1, s, joined('%s/filelist/%s_%s.txt' % (root, c, s))] for k, c in enumerate(SEG) for s in ('train_val', 'test')]
      call(r, {'e': 'seglist', 'lists': lists}, lst)
      return r.ev
  a, b = reps2(tier, 14, 60), reps2(tier, 6, 24)
  for _ in range(a): yield scan
  for _ in range(reps2(tier, 16, 60)): yield chunks
  for _ in range(a): yield outseg
  for _ in range(a): yield scaniou
  for f in (kitti, m40, img, ae, segsh):
    for _ in range(b): yield f

def reps2(tier, q, t): return q if tier == 'quick' else t

# ---------------------------------------------------------------- C36
def drive_C36(tier):
  def legacy(k, v):
    """the name and layout that a converted variable had"""
    s = k.split('.')
    if s[-1] == 'weights' and s[-2] in ('conv', 'deconv'):
      return k, v.permute(2, 1, 0).reshape(v.shape[2], -1).clone()
    if s[-1] == 'weight' and s[-3:-1] == ['conv', 'linear']: return '.'.join(s[:-3] + ['conv1x1', 'conv1x1', 'weight']), v.unsqueeze(2).clone()
    if s[-1] == 'weight' and s[-2] == 'linear': return '.'.join(s[:-2] + ['conv1x1', 'weight']), v.unsqueeze(2).clone()
    if s[-1] == 'bias' and s[-2] == 'linear': return '.'.join(s[:-2] + ['conv1x1', 'bias']), v.clone()
    return k, v.clone()
  def models(rng):
    import ocnn
    r = Rec()
    kind = rng.choice(['lenet', 'resnet', 'segnet', 'sampling', 'ups'])
    def mk():
      c = 3
      if kind == 'lenet': return ocnn.models.LeNet(c, 4, 2, False)
      if kind == 'resnet': return ocnn.models.ResNet(c, 4, 1, 2, False)
      if kind == 'segnet': return ocnn.models.SegNet(c, 4, 2, 'linear', False)
      M = ocnn.modules
      if kind == 'sampling':
        return torch.nn.ModuleDict({'conv1': M.OctreeConvBnRelu(c, 8), 'downsample': torch.nn.ModuleList([M.OctreeConvBnRelu(8, 16, [2], 2)]),
                                    'header': torch.nn.Sequential(M.Conv1x1BnRelu(16, 8), M.Conv1x1(8, 3, True))})
      return torch.nn.ModuleDict({'upsample': torch.nn.ModuleList([M.OctreeDeconvBnRelu(8, 4, [2], 2)]), 'encoder': M.OctreeConvBn(4, 6)})
    torch.manual_seed(rng.randrange(1 << 30))
    m = mk()
    sd = {k: (v + .25 * torch.randn(v.shape) if v.is_floating_point() else v + 3) for k, v in m.state_dict().items()}
    with scratch() as d:
      old = dict(legacy(k, v) for k, v in sd.items())
      torch.save(old, d + '/w.pth')
      def go(ev):
        before = dig(open(d + '/w.pth', 'rb').read())
        tool(d, 'upgrade_ckpt.py', [d + '/w.pth'])
        ev['same'] = before == dig(open(d + '/w.pth', 'rb').read())
        ev['found'] = sorted(f for f in os.listdir(d) if f != 'tools'); ev['xfound'] = ['w.pth', 'w.upgrade.pth']
        new = torch.load(d + '/w.upgrade.pth')
        m2 = mk()
        try:
          m2.load_state_dict(new)
          ev['loads'] = all(torch.equal(v, sd[k]) for k, v in m2.state_dict().items())
        except Exception: ev['loads'] = False
        ev['out'] = []
      call(r, {'e': 'upgrade', 'x': []}, go)
    return r.ev
  def names(rng):
    r = Rec()
    x, sd = [], {}
    def put(parts, v):
      if '.'.join(parts) in sd: return
      sd['.'.join(parts)] = v; x.append([parts, T(v, 'f')])
    def rnd(*sh): return torch.tensor([rng.randint(-99, 99) / 16 for _ in range(int(np.prod(sh)))], dtype=torch.float32).view(*sh)
    for i in range(rng.randint(2, 5)):
      pre = rng.choice([['encoder', str(i), 'resblks', '0', 'conv3x3a'], ['downsample', str(i)], ['upsample', str(i)], ['decoder', str(i)], ['convs', str(i)]])
      if rng.random() < .3: pre = [rng.choice(['module', 'net', 'unet'])] + pre
      K = 8 if 'downsample' in pre or 'upsample' in pre else 27
      put(pre + [rng.choice(['conv', 'deconv']), rng.choice(['weight', 'weights'])], rnd(rng.randint(1, 3), K * rng.randint(1, 3)))
      put(pre + ['bn', 'weight'], rnd(rng.randint(1, 4))); put(pre + ['bn', 'running_mean'], rnd(2)); put(pre + ['bn', 'num_batches_tracked'], torch.tensor(rng.randrange(9)))
    for i in range(rng.randint(1, 3)):
      o, c = rng.randint(1, 4), rng.randint(1, 4)
      if rng.random() < .5: put(['header', str(i), 'conv1x1', 'conv1x1', 'weight'], rnd(o, c, 1))
      else:
        put(['predict', str(i), 'conv1x1', 'weight'], rnd(o, c, 1)); put(['predict', str(i), 'conv1x1', 'bias'], rnd(o))
    put(['header', 'fc', 'weight'], rnd(2, 3)); put(['header', 'fc', 'bias'], rnd(2))
    with scratch() as d:
      f = d + rng.choice(['/w.pth', '/00300.model.pth', '/sub/last.pth'])
      os.makedirs(os.path.dirname(f), exist_ok=True)
      torch.save(sd, f)
      def go(ev):
        before = dig(open(f, 'rb').read())
        tool(d, 'upgrade_ckpt.py', [f])
        ev['same'] = before == dig(open(f, 'rb').read())
        ev['found'] = [q for q in tree(d) if not q.startswith('tools')]
        ev['xfound'] = sorted([os.path.relpath(f, d), os.path.relpath(f, d)[:-4] + '.upgrade.pth'])
        new = torch.load(f[:-4] + '.upgrade.pth')
        ev['out'] = [[k.split('.'), T(v, 'f')] for k, v in new.items()]; ev['loads'] = True
      call(r, {'e': 'upgrade', 'x': x}, go)
    return r.ev
  def clean(rng):
    r = Rec()
    with scratch() as d:
      root = d + '/logs'; runs = []
      for c in words(rng, rng.randint(1, 3), 'c'):
        os.makedirs('%s/%s' % (root, c))
        for s in words(rng, rng.randint(0, 3), 'r'):
          k = rng.choice([0, 1, 1, 2, 3, 5])
          fs = sorted({rng.choice(['%05d.model.pth', '%05d.solver.tar']) % rng.randrange(1, 400) for _ in range(k)})
          os.makedirs('%s/%s/%s/checkpoints' % (root, c, s))
          for f in rng.sample(fs, len(fs)): write('%s/%s/%s/checkpoints/%s' % (root, c, s, f), f)
          write('%s/%s/%s/log.csv' % (root, c, s), 'x')
          runs.append(['%s/%s' % (c, s), fs])
        if rng.random() < .4: write('%s/%s/plain/other/a.pth' % (root, c), 'x')
        if rng.random() < .4: write('%s/%s/note.txt' % (root, c), 'x')
      if rng.random() < .5: write(root + '/readme.txt', 'x')
      def go(ev):
        before = {f: read(os.path.join(root, f)) for f in tree(root)}
        tool(d, 'cleanup_ckpt.py', [root])
        after = tree(root)
        ev['removed'] = sorted(set(before) - set(after))
        ev['kept'] = set(after) <= set(before) and all(read(os.path.join(root, f)) == before[f] for f in after)
      call(r, {'e': 'clean', 'runs': runs}, go)
    return r.ev
  def parse(rng):
    r = Rec()
    vs, sd = [], {}
    for i in range(rng.randint(1, 7)):
      p = [rng.choice(['conv', 'header', 'encoder', 'bn']), str(i), rng.choice(['weights', 'bias', 'running_var'])]
      sh = [rng.randint(1, 6) for _ in range(rng.randint(0, 3))]
      sd['.'.join(p)] = torch.zeros(sh); vs.append([p, sh])
    sk = rng.choice([[], ['bn', 'encoder', 'running_var', 'header'], ['conv', 'bias', 'weights'], ['bn'], ['header', 'running_var'], ['bias', 'conv'], ['weights']])
    with scratch() as d:
      torch.save(sd, d + '/w.pth')
      def go(ev):
        _, o = tool(d, 'parse_ckpt.py', ['--ckpt', d + '/w.pth'] + (['--skips'] + sk if sk else []))
        ls = o.split('\n')
        ev['out'] = []
        for l in ls:
          m = re.match(r'^(\d+), (\S+), \[([\d; ]*)\], ([\d.]+)$', l)
          if m: ev['out'].append([int(m.group(1)), m.group(2).split('.'), [int(v) for v in m.group(3).split('; ')] if m.group(3) else [], int(float(m.group(4)))])
        ev['total'] = int(float(re.findall(r'^Total parameters: ([\d.]+)$', o, re.M)[-1]))
      call(r, {'e': 'parse', 'vars': vs, 'skips': sk}, go)
    return r.ev
  for f, n in ((names, 30), (models, 14), (clean, 24), (parse, 24)):
    for _ in range(reps2(tier, n, 4 * n)): yield f
