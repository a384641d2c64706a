"""Drivers for the project layer (C30, C32, C33, C34): the solvers and dataset readers under
/repo/projects, run on the CPU (device moves of batches are replaced by identity moves) with
stub networks whose outputs are chosen by the generator, inside scratch directories."""
import os, sys, math, random, shutil, tempfile, types, copy, io, contextlib
import numpy as np
import torch, ocnn
from rec import Rec, T, dig
from gen import *
from drv_struct import reps
from ocnn.octree import Octree, Points, merge_points
from ocnn.dataset import CollateBatch

PS, PU = 16384, 65536
NO = {'k': 'none'}
REPO = os.environ.get('VERIF_REPO', '/repo')
NS = types.SimpleNamespace
def call(r, ev, fn, writes=(), args=()): return r.call(ev, fn, writes=writes, args=args, m='eval')

_mods = {}
def proj(name):
  """import a project module"""
  if not _mods:
    sys.path.insert(0, os.path.join(REPO, 'projects'))
    # no GPU here: a move to the GPU is a move of the object to the CPU
    Octree.cuda = lambda self, *a, **k: self.to('cpu')
    Points.cuda = lambda self, *a, **k: self.to('cpu')
    torch.Tensor.cuda = lambda self, *a, **k: self
    torch.nn.Module.cuda = lambda self, *a, **k: self
  if name not in _mods:
    import importlib
    with contextlib.redirect_stdout(io.StringIO()):
      _mods[name] = importlib.import_module(name)
    assert os.path.realpath(_mods[name].__file__).startswith(os.path.realpath(REPO)), name
  return _mods[name]

class scratch:
  def __enter__(self):
    self.d = tempfile.mkdtemp(prefix='verif_eval_'); return self.d
  def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)

def weights(rng, K, top=9):
  """positive integer class weights with a unique maximum"""
  while True:
    w = [rng.randint(1, top) for _ in range(K)]
    if K == 1 or sorted(w)[-1] != sorted(w)[-2]: return w
def logits_of(ws): return torch.log(torch.tensor(ws, dtype=torch.float32).view(len(ws), -1))
def fx(t, s=PU):
  """fixed point value of a number; exact integers stay comparable"""
  v = float(t)
  return 1999999998 if not math.isfinite(v) else max(-10 ** 9, min(10 ** 9, int(round(v * s))))
def iv(t):
  v = float(t)
  return int(v) if math.isfinite(v) and v == int(v) and abs(v) < 1e9 else 1999999999

def solver(cls, **kw):
  s = object.__new__(cls)
  for k, v in kw.items(): setattr(s, k, v)
  return s

# ---------------------------------------------------------------- C30
def vote_session(rng, plan=None):
  """one evaluation on the real solver; plan: the schedule of a behaviour of VoteSession, else a random one"""
  r = Rec()
  seg = proj('segmentation')
  with scratch() as d:
    K = plan['K'] if plan else rng.choice([2, 3, 5])
    depth = rng.choice([2, 3, 4]); full = rng.randint(0, min(depth, 3))
    total = plan['epochs'] if plan else rng.randint(1, 4)
    style = rng.choice(['merged', 'list'])
    nfile = len(plan['sizes']) if plan else rng.randint(1, 4)
    names = rng.sample(['scene_a.ply', 'scene_b.npz', 'sub/c.ply', 'sub/d1/c.ply', 'x.y.ply', 'sub/a.ply', '11/velodyne/0.bin'], nfile)
    size = plan['sizes'] if plan else [rng.randint(2, 7) for _ in names]
    loss = NS(num_class=K)
    if rng.random() < .6: loss.mask = rng.choice([-1, 0, 0, 1])
    F_ = NS(SOLVER=NS(eval_epoch=total), DATA=NS(test=NS(depth=depth, full_depth=full)),
            MODEL=NS(feature='ND' if rng.random() < .5 else 'P', nempty=rng.random() < .5), LOSS=loss)
    ses = 100000
    cap = {}
    def model(data, octree, dep, query):
      cap['n'] = cap.get('n', 0) + 1
      cap['octree'], cap['query'] = octree, query.clone()
      ws = [weights(rng, K) for _ in range(query.shape[0])]
      cap['lg'] = ws
      return logits_of(ws)
    s = solver(seg.SegSolver, FLAGS=F_, model=model, logdir=d, eval_rst={}, device='cpu')
    base = {n: (cloud(rng, depth, m), normals(rng, m, 'axis')) for n, m in zip(names, size)}
    def schedule():
      if plan:
        for q in plan['steps']: yield q['ep'], [f - 1 for f in q['files']], q['masks']
        return
      for epoch in range(total):
        order = list(range(nfile))
        if rng.random() < .5: rng.shuffle(order)
        if rng.random() < .2: order.append(rng.choice(order))        # a file listed twice
        bi = 0
        while bi < len(order):
          nb = rng.randint(1, 3); sel = order[bi:bi + nb]; bi += nb
          ms = []
          for f in sel:
            m = [int(rng.random() < .75) for _ in range(size[f])]
            if not any(m): m[rng.randrange(len(m))] = 1
            ms.append(m)
          yield epoch, sel, ms
    saved = []
    for epoch, sel, masks in schedule():
      batch, npt, cells, ptsl = [], [], [], []
      for f, m in zip(sel, masks):
        p, nr = base[names[f]]
        q = [a for a, z in zip(p, m) if z]; qn = [a for a, z in zip(nr, m) if z]
        xyz = r.coords(q, depth)
        pc = Points(xyz, torch.tensor(qn, dtype=torch.float32).view(-1, 3), None,
                    torch.tensor([[float(rng.randrange(K))] for _ in q]))
        it = {'points': pc, 'inbox_mask': torch.tensor(m, dtype=torch.bool), 'label': 0, 'filename': names[f]}
        if style == 'merged':
          o = Octree(depth, full); o.build_octree(pc); it['octree'] = o
        batch.append(it); npt.append(len(q))
        cells.append([[min(u // 4, 2 ** depth - 1) for u in a[1:]] for a in q])
        ptsl.append(T(xyz, 'f', PS)['v'])
      cap.clear()
      ev = {'e': 'vote', 'ses': ses, 'K': K, 'files': [f + 1 for f in sel], 'masks': masks, 'npt': npt, 'cells': cells, 'pts': ptsl,
            'epoch': epoch, 'total': total, 'depth': depth, 'full': full}
      def go(ev):
        b = CollateBatch(merge_points=style == 'merged')(batch)
        b['epoch'], b['iter_num'] = epoch, 0
        with torch.no_grad(): s.eval_step(b)
        ev['lg'] = cap.get('lg', []); ev['ncall'] = cap.get('n', 0)
        ev['qb'] = T(cap['query'][:, 3]); ev['qp'] = T(cap['query'][:, :3], 'f', PS)
        ev['head'] = r.head(cap['octree']); ev['snap'] = r.snap(cap['octree'])
        ev['acc'] = [[names.index(n) + 1 if n in names else 99, T(v, 'f', PU)] for n, v in s.eval_rst.items()]
        saved.clear(); stray = []
        want = {n[:-4] + '.eval.npz': n for n in names}
        for root, _, fs in os.walk(d):
          for g in fs:
            rel = os.path.relpath(os.path.join(root, g), d)
            if rel in want:
              z = np.load(os.path.join(d, rel)); saved.append([names.index(want[rel]) + 1, T(z['prob'], 'f', PU)])
            else: stray.append(rel)
        ev['saved'], ev['stray'] = sorted(saved, key=lambda t: t[0]), stray
      call(r, ev, go, args=[('masks', [b['inbox_mask'] for b in batch])])
      if ev['err']:
        for k, v in [('lg', []), ('acc', []), ('saved', [])]: ev.setdefault(k, v)
        return r.ev
    if plan:        # the totals the model predicts at the end of the evaluation
      ev = {'e': 'votecount', 'want': [[f + 1, v] for f, v in enumerate(plan['votes'])], 'saved': sorted(saved, key=lambda t: t[0])}
      call(r, ev, lambda ev: None)
  return r.ev

def replay_vote(prog):
  rng = random.Random(repr(prog['steps']) + os.environ.get('VERIF_SEED', '1'))
  return vote_session(rng, prog)

def drive_C30(tier):
  def vote(rng): return vote_session(rng)
  def score(rng):
    """scores of random predictions, accumulated over the batches of an epoch"""
    r = Rec()
    seg = proj('segmentation')
    from thsolver.tracker import AverageTracker
    K = rng.choice([2, 3, 4, 6]); mask = rng.choice([-1, -1, 0, 0, 1]) if K > 2 else rng.choice([-1, 0])
    depth = 3
    F_ = NS(DATA=NS(test=NS(depth=depth, full_depth=2), train=NS(depth=depth, full_depth=2)),
            MODEL=NS(feature='P', nempty=True), LOSS=NS(num_class=K, mask=mask))
    cap = {}
    def model(data, octree, dep, query): return logits_of(cap['lg'])
    s = solver(seg.SegSolver, FLAGS=F_, model=model, eval_rst={}, device='cpu')
    tr = AverageTracker()
    few = rng.random() < .4
    for _ in range(rng.randint(1, 5)):
      train = rng.random() < .25
      B = rng.randint(1, 3)
      pool = rng.sample(range(K), rng.randint(1, K)) if few else list(range(K))
      if not any(k > mask for k in pool): pool.append(K - 1)
      batch, lab = [], []
      for b in range(B):
        p = cloud(rng, depth, rng.randint(1, 6))
        l = [rng.choice(pool) for _ in p]
        if b == 0: l[0] = max(pool)
        lab += l
        batch.append({'points': Points(r.coords(p, depth), torch.ones(len(p), 3), None, torch.tensor(l, dtype=rng.choice([torch.float32, torch.int32])).view(-1, 1)),
                      'inbox_mask': torch.ones(len(p), dtype=torch.bool), 'label': 0, 'filename': 'f%d.ply' % b})
      cap['lg'] = []
      for l in lab:
        w = weights(rng, K)
        if rng.random() < .5:
          j = w.index(max(w)); w[j], w[l] = w[l], w[j]
        cap['lg'].append(w)
      pre = 'train/' if train else 'test/'
      xn = ['loss', 'accu'] + ([] if train else ['mIoU'] + ['intsc_%d' % i for i in range(K)] + ['union_%d' % i for i in range(K)])
      ev = {'e': 'score', 'ses': 100001 if not train else 100002, 'K': K, 'mask': mask, 'lab': lab, 'lg': cap['lg'], 'train': train, 'xnames': sorted(pre + x for x in xn)}
      def go(ev):
        b = CollateBatch()(batch); b['epoch'] = 0
        out = s.train_step(b) if train else s.test_step(b)
        ev['names'] = sorted(out)
        ev['loss'], ev['accu'] = fx(out[pre + 'loss']), fx(out[pre + 'accu'])
        if not train:
          ev['miou'] = fx(out['test/mIoU'])
          ev['intsc'] = [iv(out['test/intsc_%d' % k]) for k in range(K)]; ev['union'] = [iv(out['test/union_%d' % k]) for k in range(K)]
          tr.update({k: torch.as_tensor(v) for k, v in out.items()})
      call(r, ev, go)
      if ev['err']: return r.ev
    if tr.value:
      ev = {'e': 'part', 'ses': 100001, 'K': K, 'mask': mask}
      def go(ev):
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): s.result_callback(tr, 1)
        ev['part'] = fx(tr.average()['test/mIoU_part'])
      call(r, ev, go)
    return r.ev
  for _ in reps(tier, 60, 700): yield vote
  for _ in reps(tier, 80, 1200): yield score

# ---------------------------------------------------------------- C32
def drive_C32(tier):
  def table(rng):
    r = Rec(); k = proj('datascts.semantic_kitti')
    ev = {'e': 'kmap'}
    def go(ev): ev['map'] = T(np.asarray(k.get_label_map()))
    call(r, ev, go)
    return r.ev
  def tfm(kmod, **kw):
    f = dict(depth=4, full_depth=2, distort=False, angle=(0, 0, 0), interval=(1, 1, 1), scale=0., uniform=False, jitter=0., flip=(0, 0, 0), orient_normal='')
    f.update(kw)
    class D(dict):
      __getattr__ = dict.__getitem__
    return D(f)
  def allids(lo):
    def f(rng):
      """every raw id, with random instance bits in the upper half"""
      r = Rec(); k = proj('datascts.semantic_kitti')
      raw = [[rng.choice([0, 1, rng.randrange(1 << 15), rng.randrange(1 << 15, 1 << 16)]), i] for i in range(lo, min(lo + 65, 260))]
      rng.shuffle(raw)
      lab = np.array([(h << 16) | l for h, l in raw], dtype=np.uint32).view(np.int32)
      n = len(raw)
      pts = np.array([[rng.randint(-60, 60), rng.randint(-60, 60), rng.randint(-20, 20), rng.randint(0, 8)] for _ in range(n)], dtype=np.float32)
      sample = {'points': pts, 'labels': lab}
      ev = {'e': 'klab', 'raw': raw}
      how = rng.choice(['pre', 'file', 'file'])
      def go(ev):
        t = k.KittiTransform(tfm(k))
        if how == 'pre': out = t.preprocess(sample, 0)
        else:
          with scratch() as d:
            os.makedirs(d + '/velodyne'); os.makedirs(d + '/labels')
            pts.tofile(d + '/velodyne/000000.bin'); lab.tofile(d + '/labels/000000.label')
            out = t(k.read_file(d + '/velodyne/000000.bin'), 0)
        ev['out'] = T(out['points'].labels)
      call(r, ev, go, args=[('points', pts), ('labels', lab)])
      return r.ev
    return f
  def missing(rng):
    r = Rec(); k = proj('datascts.semantic_kitti')
    n = rng.randint(1, 9)
    pts = np.random.RandomState(rng.randrange(1 << 30)).randn(n, 4).astype(np.float32)
    ev = {'e': 'klab', 'raw': [[0, 0]] * n}
    def go(ev):
      with scratch() as d:
        os.makedirs(d + '/velodyne'); pts.tofile(d + '/velodyne/000000.bin')
        ev['out'] = T(k.KittiTransform(tfm(k)).preprocess(k.read_file(d + '/velodyne/000000.bin'), 0)['points'].labels)
    call(r, ev, go)
    return r.ev
  yield table
  for _ in reps(tier, 3, 40):
    for lo in (0, 65, 130, 195): yield allids(lo)
  for _ in reps(tier, 3, 20): yield missing

# ---------------------------------------------------------------- C33
class Flags(dict):
  __getattr__ = dict.__getitem__
def flags(rng=None, **kw):
  f = dict(depth=4, full_depth=2, distort=False, angle=(0, 0, 5), interval=(1, 1, 1), scale=.125, uniform=False, jitter=.125, flip=(0., 0., 0.), orient_normal='', name='x')
  f.update(kw)
  return Flags(f)
def ipts(rng, n, lo, hi):
  P = [[rng.randint(lo, hi) for _ in range(3)] for _ in range(n)]
  while max(max(c) - min(c) for c in zip(*P)) < min(40, hi - lo): P[rng.randrange(n)][rng.randrange(3)] = rng.choice([lo, hi])
  return P
def pj(p):
  return {'pts': T(p.points, 'f', PS), 'nrm': T(p.normals), 'ft': T(p.features, 'f'), 'lb': T(p.labels)}
def A(rows, scale=1):
  return {'has': rows is not None, 'c': len(rows[0]) if rows else 0, 'v': [[round(x * scale) for x in q] for q in rows] if rows else []}
def write_ply(fn, P, N=None, C=None, L=None, text=False, rng=None):
  """with rng the vertex properties are stored in a random order"""
  from plyfile import PlyData, PlyElement
  t = [('x', 'f4'), ('y', 'f4'), ('z', 'f4')]; cols = [P]
  if N is not None: t += [('nx', 'f4'), ('ny', 'f4'), ('nz', 'f4')]; cols.append(N)
  if C is not None: t += [('red', 'u1'), ('green', 'u1'), ('blue', 'u1')]; cols.append(C)
  if L is not None: t += [('label', 'u1')]; cols.append(L)
  rows = [tuple(sum([list(c[i]) for c in cols], [])) for i in range(len(P))]
  if rng is not None:
    o = list(range(len(t))); rng.shuffle(o)
    t, rows = [t[k] for k in o], [tuple(q[k] for k in o) for q in rows]
  PlyData([PlyElement.describe(np.array(rows, dtype=t), 'vertex')], text).write(fn)

def drive_C33(tier):
  def readers(rng):
    r = Rec(); u = proj('datascts.utils')
    n = rng.randint(1, 8)
    P, N = [[rng.randint(-99, 99) for _ in range(3)] for _ in range(n)], [[rng.randint(-3, 3) for _ in range(3)] for _ in range(n)]
    C, L = [[rng.randint(0, 255) for _ in range(3)] for _ in range(n)], [[rng.randint(0, 255)] for _ in range(n)]
    hn, hc, hl = [rng.random() < .5 for _ in range(3)]
    kind = rng.choice(['ply', 'npz', 'file.ply', 'file.npz', 'tools', 'points.ply', 'points.npz', 'm40.ply', 'm40.npz', 'comp.npz', 'comp.ply'])
    x = [['points', P, 'f32']] + ([['normals', N, 'f32']] if hn else []) + ([['colors', C, 'f32']] if hc else []) + ([['labels', [l[0] for l in L], 'i32']] if hl else [])
    if kind[:3] in ('poi', 'm40', 'com'): x = [['points', P, 'f32'], ['normals', N, 'f32']]
    ev = {'e': 'read', 'kind': kind, 'x': [[k, {'k': 't', 'sh': list(np.array(v).shape), 'v': v, 'dt': d}] for k, v, d in x], 'xkeys': sorted(k for k, _, _ in x)}
    def go(ev):
      with scratch() as d:
        suf = kind.split('.')[-1] if '.' in kind else ('npz' if kind == 'npz' else 'ply')
        fn = d + '/sub.dir/a.' + suf
        os.makedirs(d + '/sub.dir')
        if kind == 'tools':
          import importlib.util
          sp = importlib.util.spec_from_file_location('tools_utils', REPO + '/projects/tools/utils.py'); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
          m.save_points_to_ply(d + '/new/b.ply', np.array(P, 'f4'), np.array(N, 'f4') if hn else None, np.array(C) if hc else None, np.array(L) if hl else None, text=rng.random() < .3)
          fn = d + '/new/b.ply'
        elif suf == 'npz':
          z = {'points': np.array(P, 'f8'), 'normals': np.array(N, 'f4'), 'colors': np.array(C, 'u1'), 'labels': np.array(L).reshape(-1).astype('i8')}
          if kind[:3] in ('m40', 'com', 'poi'): z = {'points': np.array(P, 'f4'), 'normals': np.array(N, 'f4')}
          if kind[:3] == 'm40' and rng.random() < .6: z['extra'] = np.array(C, 'f4') + 7
          kk = sorted(z); rng.shuffle(kk)
          np.savez(fn, **{k: z[k] for k in kk})
        else: write_ply(fn, P, N, C, L, rng.random() < .3, rng if rng.random() < .6 else None)
        if kind in ('ply', 'tools'): out = u.ReadPly(hn, hc, hl)(fn)
        elif kind == 'npz': out = u.ReadNpz(hn, hc, hl)(fn)
        elif kind[:4] == 'file': out = u.ReadFile(hn, hc, hl)(fn)
        elif kind[:3] == 'poi': out = proj('datascts.image2shape').ReadPoints(True, suf)(fn[:-4])
        elif kind[:3] == 'm40': out = proj('datascts.modelnet40').read_file(fn)
        else: out = proj('datascts.completion').ReadFile()(fn)
        out = {k: out[k] for k in (out.files if hasattr(out, 'files') else out)}
        ev['keys'] = sorted(out)
        ev['out'] = [[k, T(np.asarray(out[k])) if k in out else NO] for k, _, _ in x]
    call(r, ev, go)
    return r.ev
  def prep(kind):
    def f(rng):
      r = Rec()
      n = rng.randint(2, 9); un = 16
      raw = {}
      clip, keys = False, ['points']
      N = [[rng.randint(-3, 3) for _ in range(3)] for _ in range(n)]
      L = [rng.randrange(20) for _ in range(n)]
      C = [[rng.randint(0, 255) for _ in range(3)] for _ in range(n)]
      nrm, ft, lb = N, None, None
      ev = {'e': 'prep', 'kind': kind, 'un': un, 'ps': 1}
      if kind == 'scannet':
        P = ipts(rng, n, rng.choice([-80, -170, -300]), rng.choice([80, 170, 300]))
        sample = {'points': np.array(P, 'f4') / un, 'normals': np.array(N, 'f4'), 'colors': np.array(C, 'f4'), 'labels': np.array(L, 'i4')}
        t = proj('datascts.scannet').ScanNetTransform(flags())
        clip = True; ft, lb = [[c / 255 for c in q] for q in C], [[l] for l in L]; keys = ['inbox_mask', 'points']
        run = lambda: t(sample, 0)
      elif kind == 'shapenet':
        P = ipts(rng, n, -300, 300)
        if rng.random() < .3: P = [[rng.choice([0, 1]) for _ in range(3)] for _ in range(n)]; P[0] = [0, 0, 0]; P[1] = [1, 0, 1]
        sample = {'points': np.array(P, 'f4') / un, 'normals': np.array(N, 'f4'), 'labels': np.array(L, 'i4')}
        t = proj('datascts.seg_shapenet').ShapeNetTransform(flags()); lb = [[l] for l in L]
        full = rng.random() < .5
        if full: clip, keys = True, ['inbox_mask', 'octree', 'points']
        run = lambda: t(sample, 0) if full else t.preprocess(sample, 0)
      elif kind == 'kitti':
        P = ipts(rng, n, -900, 900)
        D = [[rng.randint(0, 9)] for _ in range(n)]
        raws = rng.choices([0, 10, 40, 252, 81, 259, 99], k=n)
        sample = {'points': np.concatenate([np.array(P, 'f4') / un, np.array(D, 'f4')], 1), 'labels': np.array(raws, 'i4')}
        t = proj('datascts.semantic_kitti').KittiTransform(flags()); ft, nrm = D, None
        lb = [[{0: 0, 10: 6, 40: 1, 252: 6, 81: 19, 259: 10, 99: 0}[q]] for q in raws]
        full = rng.random() < .5
        if full: clip, keys = True, ['inbox_mask', 'octree', 'points']
        run = lambda: t(sample, 0) if full else t.preprocess(sample, 0)
      elif kind in ('ae', 'image'):
        ps = rng.choice([1, 2, 4]); P = ipts(rng, n, -16 * ps, 16 * ps); ev['ps'] = ps; ev['kind'] = 'ae'
        sample = {'points': np.array(P, 'f4') / un, 'normals': np.array(N, 'f4')}
        fl = flags(points_scale=float(ps))
        if kind == 'ae': t = proj('datascts.ae_shapenet').ShapeNetTransform(fl)
        else:
          from PIL import Image
          sample['image'] = Image.new('RGB', (4, 4), (rng.randrange(256), 0, 255)); keys = ['image', 'points']
          t = proj('datascts.image2shape').Image2ShapeTransform(fl)
        full = rng.random() < .5 and kind == 'ae'
        if full: clip, keys = True, ['inbox_mask', 'octree', 'points']
        run = lambda: t(sample, 0) if full else t.preprocess(sample, 0)
      else:                     # modelnet
        P = ipts(rng, n, -15, 15) if False else [[rng.randint(-15, 15) for _ in range(3)] for _ in range(n)]
        ev['kind'] = 'id'
        sample = {'points': np.array(P, 'f4') / un, 'normals': np.array(N, 'f4')}
        t = proj('datascts.modelnet40').ModelNetTransform(flags())
        full = rng.random() < .5
        if full: clip, keys = True, ['inbox_mask', 'octree', 'points']
        run = lambda: t(sample, 0) if full else t.preprocess(sample, 0)
      ev.update({'x': P, 'clip': clip, 'mask': NO, 'nrm': A(nrm), 'lb': A(lb), 'xkeys': keys, 'ft': A(ft, 4096)})
      rep = rng.random() < .4
      def go(ev):
        out = run()
        if rep: out = run()         # the sample may be kept in memory and transformed again
        ev['keys'] = sorted(out)
        if clip: ev['mask'] = T(out['inbox_mask'])
        ev['p'] = pj(out['points'])
      call(r, ev, go, args=[('sample.' + k, v) for k, v in sample.items() if isinstance(v, np.ndarray)])
      return r.ev
    return f
  def completion(rng):
    r = Rec(); c = proj('datascts.completion')
    n = rng.randint(2, 9); un = 16; D = rng.choice([3, 4, 5])
    P = ipts(rng, n, -300, 300); N = [[rng.randint(-3, 3) for _ in range(3)] for _ in range(n)]
    if rng.random() < .3: P = [[rng.choice([0, 1]) for _ in range(3)] for _ in range(n)]; P[0] = [0, 0, 0]; P[1] = [1, 0, 1]
    sample = {'points': np.array(P, 'f4') / un, 'normals': np.array(N, 'f4')}
    np.random.seed(rng.randrange(1 << 30))
    t = c.Transform(flags(depth=D, full_depth=rng.randint(0, 2)))
    want = t.points_number
    t.points_number = rng.choice([1, 10, 40])
    if rng.random() < .5: t.noise_std = .02      # some of the noisy points leave the unit cube
    res = {}
    ev = {'e': 'prep', 'kind': 'completion', 'un': un, 'ps': 1, 'x': P, 'clip': False, 'mask': NO, 'nrm': A(N), 'ft': A(None), 'lb': A(None), 'xkeys': ['octree', 'octree_gt', 'points', 'points_gt']}
    def go(ev):
      out = t(sample, 0); res.update(out)
      ev['keys'] = sorted(out); ev['p'] = pj(out['points_gt'])
    call(r, ev, go, args=[('sample.' + k, v) for k, v in sample.items()])
    if ev['err']: return r.ev
    qg = (res['points_gt'].points.double() + 1) * 2.0 ** (D - 1) * 256
    for key, pk in (('octree', 'points'), ('octree_gt', 'points_gt')):
      o, p = res[key], res[pk]
      sg = 0 if key == 'octree_gt' else 6 * t.noise_std * 2 ** (D - 1) * 256
      ev = {'e': 'cover', 'depth': D, 'np': t.points_number if key == 'octree' else n, 'src': T(torch.floor(qg))['v'] if key == 'octree' else [], 'rad': int(sg) + 8}
      def go2(ev):
        ev['q'] = T(torch.floor((p.points.double() + 1) * 2.0 ** (D - 1) * 256))
        ev['vox'] = T(torch.stack(o.xyzb(o.depth, True)[:3], 1))
      call(r, ev, go2)
    # collated
    ev = {'e': 'read', 'x': [], 'out': [], 'xkeys': ['octree', 'octree_gt', 'points', 'points_gt'], 'kind': 'collate'}
    def go3(ev):
      z = CollateBatch(merge_points=False)([res, res]); ev['keys'] = sorted(z)
      assert z['octree'].batch_size == 2 and z['octree_gt'].batch_size == 2 and want == 3000
    call(r, ev, go3)
    return r.ev
  def augment(rng):
    r = Rec(); s = proj('datascts.scannet')
    import random as pyrandom
    pyrandom.seed(rng.randrange(1 << 30)); np.random.seed(rng.randrange(1 << 30))
    n = rng.randint(2, 12)
    C = np.array([[rng.randint(0, 255) for _ in range(3)] for _ in range(n)], 'f4'); C[0] = 0; C[1] = 255
    P = np.array(ipts(rng, n, -64, 64), 'f4') / 64
    ev = {'e': 'aug', 'xsh': [n, 3]}
    def go(ev):
      c = s.color_distort(C / 255., .1, .05); x = s.elastic_distort(P.copy(), np.array([[.1, .2], [.4, .8]], np.float32))
      ev['col'] = T(c, 'f', PS); ev['xyz'] = T(x, 'f', PS)
    call(r, ev, go)
    return r.ev
  def views(rng):
    # image-to-shape samples: a random one of the 24 renderings of the shape
    from PIL import Image
    r = Rec(); m = proj('datascts.image2shape'); ft = rng.choice(['ply', 'npz'])
    n = rng.randint(1, 4)
    P, N = [[rng.randint(-99, 99) for _ in range(3)] for _ in range(n)], [[rng.randint(-3, 3) for _ in range(3)] for _ in range(n)]
    mode = rng.choice(['RGBA', 'RGB', 'L'])
    ev = {'e': 'views', 'x': P, 'nrm': N, 'num': 24}
    np.random.seed(rng.randrange(1 << 30))
    def go(ev):
      with scratch() as d:
        fo, fr = d + '/points.' + ft + '/02', d + '/renderings/02/s1/rendering'
        os.makedirs(fo); os.makedirs(fr)
        if ft == 'ply': write_ply(fo + '/s1.ply', P, N, [[0] * 3] * n, [[0]] * n, False)
        else: np.savez(fo + '/s1.npz', points=np.array(P, 'f2'), normals=np.array(N, 'f2'))
        for k in range(24): Image.new(mode, (2, 2), {'RGBA': (10 * k, 5, 250, 255), 'RGB': (10 * k, 5, 250), 'L': 10 * k}[mode]).save(fr + '/%02d.png' % k)
        rd = m.ReadFile(True, ft); seen = set(); ev['modes'] = []
        rp, rd.read_points = rd.read_points, None
        first = rp(fo + '/s1'); rd.read_points = lambda f: dict(first)
        for k in range(400):
          z = rd(fo + '/s1')
          seen.add(z['image'].getpixel((0, 0))[0] // 10)
          if k == 0: ev['modes'] = [z['image'].mode, sorted(z)]
        ev['seen'] = sorted(seen)
        ev['p'], ev['n'] = T(z['points'], 'f', 1), T(z['normals'], 'f', 1)
    call(r, ev, go)
    return r.ev
  for _ in reps(tier, 4, 30): yield views
  for _ in reps(tier, 60, 600): yield readers
  for k in ('scannet', 'shapenet', 'kitti', 'ae', 'image', 'modelnet'):
    for _ in reps(tier, 14, 200): yield prep(k)
  for _ in reps(tier, 12, 150): yield completion
  for _ in reps(tier, 8, 80): yield augment

# ---------------------------------------------------------------- C34
def distinct_cloud(rng, D, n, bs, ):
  out, seen = [], set()
  for p in cloud(rng, D, n, bs):
    c = tuple([p[0]] + [min(u // 4, 2 ** D - 1) for u in p[1:]])
    if c in seen: continue
    seen.add(c); out.append(p)
  return out
def drive_C34(tier):
  def objective(rng):
    r = Rec()
    which = rng.choice(['autoencoder', 'completion', 'image2shape'])
    mod = proj(which)
    cls = {'autoencoder': 'AutoEncoderSolver', 'completion': 'CompletionSolver', 'image2shape': 'Image2ShapeSolver'}[which]
    D = rng.choice([2, 3, 4, 6]); full = rng.randint(0, 2); bs = rng.choice([1, 1, 2, 3])
    pts = inner(distinct_cloud(rng, D, rng.randint(1, 6), bs), D)
    pts = [p for i, p in enumerate(pts) if not any(q[0] == p[0] and [a // 4 for a in q[1:]] == [a // 4 for a in p[1:]] for q in pts[:i])]
    nr = normals(rng, len(pts), 'axis')
    i = r.build(pts, D, full, bs, nr); r.cneighs(i)
    o = r.obj[i]
    lgs = [[weights(rng, 2, 9) for _ in range(int(o.nnum[d]))] for d in range(full, D + 1)]
    if rng.random() < .5:
      for d in range(full, D + 1):
        for w, m in zip(lgs[d - full], o.nempty_mask(d).tolist()): w.sort(reverse=not m)
    gt = o.get_input_feature('ND', nempty=True)
    sg = [[rng.randint(-16, 16) for _ in range(4)] for _ in range(gt.shape[0])]
    cap = {}
    def model(*a, **k):
      cap['k'] = k
      return {'logits': {d: logits_of(lgs[d - full]) for d in range(full, D + 1)}, 'signal': torch.tensor(sg, dtype=torch.float32) / 16, 'octree_out': o}
    s = solver(getattr(mod, cls), model=model)
    train = rng.random() < .5
    pre = 'train/' if train else 'test/'
    xn = ['loss', 'loss_reg'] + ['loss_%d' % d for d in range(full, D + 1)] + ['accu_%d' % d for d in range(full, D + 1)]
    ev = {'e': 'aeloss', 'id': i, 'lgs': lgs, 'sig': sg, 'xnames': sorted(pre + x for x in xn),
          'gt': [[round(float(x) * 16) for x in q] for q in gt]}
    def go(ev):
      b = {'octree': o, 'octree_gt': o, 'image': torch.zeros(bs, 3, 4, 4), 'points': [], 'filename': []}
      if which == 'completion':                 # the input octree is another one
        oi = Octree(D, full, bs); oi.build_octree(r.make_points([[q, 1, 1, 1] for q in range(bs)], D, bs)); b['octree'] = oi
      out = s.train_step(b) if train else s.test_step(b)
      ev['names'] = sorted(out)
      ev['losses'] = [fx(out.get(pre + 'loss_%d' % d, math.nan)) for d in range(full, D + 1)]
      ev['accus'] = [fx(out.get(pre + 'accu_%d' % d, math.nan)) for d in range(full, D + 1)]
      ev['reg'], ev['loss'] = fx(out[pre + 'loss_reg']), fx(out[pre + 'loss'])
      ev['gtt'] = T(gt, 'f', 16)
      assert cap['k'].get('update_octree') is False
    call(r, ev, go)
    return r.ev
  def points(rng):
    r = Rec()
    which = rng.choice(['autoencoder', 'autoencoder', 'completion', 'image2shape'])
    mod = proj(which)
    cls = {'autoencoder': 'AutoEncoderSolver', 'completion': 'CompletionSolver', 'image2shape': 'Image2ShapeSolver'}[which]
    D = rng.choice([2, 3, 4, 5]); full = rng.randint(0, 2); bs = rng.choice([1, 2, 3])
    i = r.build(cloud(rng, D, rng.randint(1, 8), bs), D, full, bs)
    o = r.obj[i]
    n = int(o.nnum_nempty[D])
    sg = [[rng.randint(1, 3), rng.choice([-1, 1, 1, 0]), rng.randint(-16, 16)] for _ in range(n)]
    sig = torch.zeros(n, 4)
    for k, (a, s_, q) in enumerate(sg):
      sig[k, a - 1] = s_ * rng.choice([1., 2., .5, 1e-2, 1e-4, 300.]); sig[k, 3] = q / 8
    z = copy.copy(o); z.features = list(o.features); z.features[D] = sig
    files = rng.random() < .5
    ev = {'e': 'aepts', 'id': i, 'sg': sg, 'files': files, 'tol': 3, 'found': [], 'xfound': [], 'inp': [], 'xin': []}
    def go(ev):
      if not files:
        s = solver(getattr(mod, cls))
        ev['out'] = [T(q, 'f', PS) for q in s.octree2pts(z)]
        return
      with scratch() as d:
        cap = {}
        def model(*a, **k):
          cap['k'] = k
          return {'octree_out': z, 'logits': {}, 'signal': sig}
        s = solver(getattr(mod, cls), model=model, logdir=d)
        fn = rng.sample(['a.ply', 'b', 'sub/c.npz', 'sub/e/f', 'm/v1.0.ply', 'm/v1.1.ply', 'x.y.z.npz', 'k/box', '03/Ax.ply', 'out', 'img.ply'], bs)
        st = [f[:f.rfind('.')] if '.' in f else f for f in fn]
        pin = [torch.tensor([[rng.randint(-64, 64) / 64. for _ in range(3)] for _ in range(rng.randint(1, 4))]) for _ in fn]
        nin = [torch.nn.functional.normalize(torch.randn(len(p), 3)) for p in pin]
        b = {'octree': o, 'image': torch.rand(bs, 3, 4, 4), 'points': [Points(p, q) for p, q in zip(pin, nin)], 'filename': fn, 'epoch': 0}
        pix = b['image'].clone()
        s.eval_step(b)
        assert cap['k'].get('update_octree') is True
        img = which == 'image2shape'
        ev['xfound'] = sorted(sum([[q + ('.img.png' if img else '.in.xyz'), q + '.out.xyz'] for q in st], []))
        ev['found'] = sorted(os.path.relpath(os.path.join(root, g), d) for root, _, fs in os.walk(d) for g in fs)
        outs = [np.loadtxt(os.path.join(d, q + '.out.xyz'), ndmin=2).reshape(-1, 6) for q in st]
        ev['out'] = [T(q, 'f', PS) for q in outs]
        ev['fine'], ev['xfine'] = [T(q, 'f', 1 << 20) for q in outs], [T(q, 'f', 1 << 20) for q in s.octree2pts(z)]
        if img:        # the saved picture is that sample's own image (one grey level for the conversion)
          import PIL.Image
          ev['inp'] = [T(np.asarray(PIL.Image.open(os.path.join(d, q + '.img.png'))).transpose(2, 0, 1).reshape(3, -1).astype('float32'), 'f', 1) for q in st]
          ev['xin'] = [T((q * 255).reshape(3, -1), 'f', 1) for q in pix]
        else:
          ev['inp'] = [T(np.loadtxt(os.path.join(d, q + '.in.xyz'), ndmin=2), 'f', PS) for q in st]
          ev['xin'] = [T(torch.cat([p, q], 1), 'f', PS) for p, q in zip(pin, nin)]
    call(r, ev, go)
    return r.ev
  def cls_(rng):
    r = Rec(); c = proj('classification')
    K, bs, D = rng.choice([2, 4, 10, 40, 70]), rng.randint(1, 4), 3
    i = r.build(cloud(rng, D, rng.randint(1, 6), bs), D, 2, bs); r.cneighs(i)
    lab = [rng.randrange(K) for _ in range(bs)]
    lg = [weights(rng, K) for _ in range(bs)]
    for w, l in zip(lg, lab):
      if rng.random() < .5: j = w.index(max(w)); w[j], w[l] = w[l], w[j]
    F_ = NS(MODEL=NS(feature='P', nempty=True))
    s = solver(c.ClsSolver, FLAGS=F_, model=lambda d, o, dep: logits_of(lg))
    train = rng.random() < .5; pre = 'train/' if train else 'test/'
    ev = {'e': 'cls', 'lab': lab, 'lg': lg, 'xnames': [pre + 'accu', pre + 'loss']}
    def go(ev):
      b = {'octree': r.obj[i], 'label': torch.tensor(lab)}
      out = s.train_step(b) if train else s.test_step(b)
      ev['names'] = sorted(out); ev['loss'], ev['accu'] = fx(out[pre + 'loss']), fx(out[pre + 'accu'])
    call(r, ev, go)
    return r.ev
  for _ in reps(tier, 45, 700): yield objective
  for _ in reps(tier, 45, 700): yield points
  for _ in reps(tier, 15, 150): yield cls_
