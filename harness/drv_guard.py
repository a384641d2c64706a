"""Driver for C38: calls that are not well formed are refused and leave every object as it was;
well-formed calls next to them go through."""
import os, copy
import numpy as np
import torch, ocnn
from ocnn import nn
from ocnn.octree import Octree, Points
from ocnn.utils import resize_with_last_val, build_example_octree
from ocnn.dataset import CollateBatch
from rec import Rec, T
from gen import *
from drv_struct import reps
from drv_ops import some_octree, rows, KERNELS, KL
import drv_eval
from drv_eval import proj, scratch

AB = [-1]
def guard(r, op, fn, args=(), **kw):
  ev = dict({'e': 'guard', 'op': op, 'refused': False, 'left': 0}, **kw)
  def f(ev):
    try: left = fn()
    except Exception as ex: ev['refused'] = True; left = getattr(ex, 'left', 0)
    ev['left'] = left if ev['refused'] and isinstance(left, int) else 0
  r.call(ev, f, args=args, m='guard')

def off(rng, n):
  """a wrong number of rows"""
  return max(0, rng.choice([n - 1, n + 1, n + 8, 2 * n, 1, 0, n // 8])) if rng.random() < .6 else n

def drive_C38(tier):
  def points(rng):
    r = Rec()
    for _ in range(14):
      n = rng.randint(2, 6)
      sh = {'pts': [n, 3], 'nrm': rng.choice([AB, [n, 3]]), 'ft': rng.choice([AB, [n, rng.randint(1, 4)]]),
            'lb': rng.choice([AB, [n], [n, 1], [n, 2]]), 'bid': rng.choice([AB, [n], [n, 1]])}
      for _ in range(rng.choice([0, 1, 1, 1])):
        k = rng.choice(list(sh))
        w = {'pts': [[n, 2], [n, 4], [n], [1, n, 3], [n, 1]], 'nrm': [[n - 1, 3], [n + 1, 3], [n, 2], [n], [n, 4], [1, 3], [1, n, 3], [n * 2, 3]],
             'ft': [[n - 1, 2], [n + 1, 1], [n], [1, 2], [n, 2, 1], [2 * n, 2]], 'lb': [[n - 1], [n + 1, 1], [1], [n, 1, 1], [1, n] if n > 1 else [2]],
             'bid': [[n, 2], [n - 1], [n + 1, 1], [1], [1, 1], [n, 1, 1]]}[k]
        sh[k] = rng.choice(w)
      mk = lambda s: None if s == AB else torch.rand(*s)
      t = {k: mk(s) for k, s in sh.items()}
      guard(r, 'points', lambda: Points(t['pts'], t['nrm'], t['ft'], t['lb'], t['bid']), list(t.items()), **sh)
    return r.ev
  def cloud_ops(rng):
    r = Rec()
    n = rng.randint(2, 6)
    def fresh(): return Points(torch.rand(n, 3), torch.rand(n, 3), torch.rand(n, 2), torch.rand(n), torch.zeros(n))
    for _ in range(5):
      f = [rng.choice([0, 0, 1, -1, 2, 8]) for _ in range(3)]
      c = fresh(); guard(r, 'scale', lambda: c.scale(torch.tensor(f, dtype=torch.float32) / 8), [('cloud', c.points)], f=f)
      ax = rng.choice(['x', 'y', 'z', 'xyz', 'w', '', 'xy', 'X', 'zyx'])
      c2 = fresh(); guard(r, 'orient', lambda: c2.orient_normal(ax), axis=ax)
      fl = rng.choice(['', 'x', 'xy', 'zz', 'a', 'xw', 'Y', 'zyx'])
      c3 = fresh(); guard(r, 'flip', lambda: c3.flip(fl), axes=list(fl))
      ext = rng.choice(['npz', 'xyz', 'npz', 'xyz', 'ply', 'txt', 'np', 'off']); info = rng.choice(['PNFL', 'P', 'pb', 'PNX', 'Q', 'LB', 'NP'])
      c4 = fresh()
      def save():
        with scratch() as d:
          try: c4.save(os.path.join(d, 'a.' + ext), info)
          except Exception as e_: e_.left = len(os.listdir(d)); raise
        return 0
      guard(r, 'save', save, ext=ext, info=list(info.upper()))
    return r.ev
  def trees(rng):
    r = Rec()
    for _ in range(4):
      D, full = rng.choice([(2, 1), (3, 1), (3, 2), (4, 2)])
      pb, ob = rng.choice([(1, 1), (2, 2), (3, 3), (1, 2), (2, 1), (3, 2), (2, 3)])
      n = rng.randint(3, 8)
      bid = torch.tensor([i % pb for i in range(n)]).sort()[0]
      c = Points(torch.rand(n, 3) * 1.8 - .9, batch_id=bid if pb > 1 or rng.random() < .5 else None, batch_size=pb)
      guard(r, 'build', lambda: Octree(D, full, ob).build_octree(c), [('points', c.points)], pbs=pb, obs=ob)
      d = rng.randint(0, D)
      o = ocnn.octree.init_octree(D, full, ob)
      guard(r, 'growfull', lambda: o.octree_grow_full(d, rng.random() < .5), d=d, full=full)
      i = some_octree(r, rng)
      for _ in range(4):
        k = rng.choice(KERNELS + ['111', '332', '', '3', '333 ', '233', '122', '444', '3333']); s = rng.choice([1, 2, 1, 2, 0, 3, -1, 8])
        d = rng.randint(1, r.obj[i].depth)
        guard(r, 'neigh', lambda: r.obj[i].get_neigh(d, k, s, rng.random() < .5), kernel=k, stride=s)
      m = rng.randint(0, 6)
      guard(r, 'example', lambda: build_example_octree(pt_num=m - 1), n=m - 1)
      num = rng.randint(1, 5); L = rng.randint(1, 6); kind = rng.choice([list, list, list, tuple])
      guard(r, 'resize', lambda: resize_with_last_val(kind(range(L)), num), list=kind is list, len=L, num=num)
      b = [{'x': 1, 'label': 0}, {'x': 2, 'label': 1}]; kind2 = rng.choice([list, tuple])
      guard(r, 'collate', lambda: CollateBatch()(kind2(b)), list=kind2 is list)
    return r.ev
  def operators(rng):
    r = Rec()
    i = some_octree(r, rng)
    o = r.obj[i]
    for _ in range(10):
      op = rng.choice(['conv', 'conv', 'deconv', 'dwconv', 'gconv', 'nearest', 'linear', 'upnearest', 'uplinear', 'align', 'target'])
      ne = rng.random() < .5
      s = rng.choice([1, 2])
      cs = [d for d in range(1, o.depth + 1 - (op in ('deconv', 'upnearest', 'uplinear') or op == 'deconv')) if int(o.nnum[d]) < 600]
      if not cs: continue
      d = rng.choice(cs)
      n = rows(o, d, ne); m = off(rng, n)
      kw = {'id': i, 'd': d, 'ne': ne}
      if op in ('conv', 'deconv', 'dwconv', 'gconv'):
        k = rng.choice(KERNELS); ks = list(KL[k][0])
        cin = rng.choice([2, 4]); c = cin if rng.random() < .6 or m != n else rng.choice([1, 2, 3, 4, 6])
        x = torch.rand(m, c)
        if op == 'conv': M = nn.OctreeConv(cin, 3, ks, s, ne)
        elif op == 'deconv': M = nn.OctreeDeconv(cin, 3, ks, s, ne)
        elif op == 'dwconv': M = nn.OctreeDWConv(cin, ks, s, ne)
        else: M = nn.OctreeGroupConv(cin, 4, ks, s, ne, group=2)
        guard(r, op, lambda: M(x, o, d), [('data', x)], sh=[m, c], cin=cin, **kw)
      elif op in ('nearest', 'linear'):
        x = torch.rand(m, 2); q = torch.cat([torch.rand(4, 3) * 2 ** d, torch.zeros(4, 1)], 1)
        fn = getattr(nn, 'octree_%s_pts' % op)
        if rng.random() < .5: guard(r, op, lambda: fn(x, o, d, q, ne), [('data', x)], sh=[m, 2], **kw)
        else: guard(r, op, lambda: nn.OctreeInterp(op, ne, rescale_pts=False)(x, o, d, q), [('data', x)], sh=[m, 2], **kw)
      elif op in ('upnearest', 'uplinear'):
        x = torch.rand(m, 2)
        guard(r, op, lambda: nn.OctreeUpsample(op[2:], ne)(x, o, d), [('data', x)], sh=[m, 2], **kw)
      elif op == 'align':
        x = torch.rand(m, 2)
        guard(r, op, lambda: nn.octree_align(x, o, o, d, ne), [('value', x)], sh=[m, 2], **kw)
      else:
        x = torch.rand(n, 2); t = rng.randint(0, o.depth)
        guard(r, op, lambda: nn.OctreeUpsample(rng.choice(['nearest', 'linear']), ne)(x, o, d, t), [('data', x)], target=t, **kw)
    for _ in range(4):
      g = rng.randint(1, 4); a, b = rng.randint(1, 8), rng.randint(1, 8)
      if rng.random() < .5: guard(r, 'groups', lambda: nn.OctreeGroupNorm(a, g), cin=a, cout=a, group=g)
      else: guard(r, 'groups', lambda: nn.OctreeGroupConv(a, b, [3], 1, group=g), cin=a, cout=b, group=g)
    return r.ev
  def net(rng):
    r = Rec()
    D, full = 3, 2
    i = r.build(cloud(rng, D, 4), D, full, 1, normals(rng, 4), feats(rng, 4, 2)); r.cneighs(i)
    feat = rng.choice(['N', 'ND', 'LP', 'NF']); want = {'N': 3, 'ND': 4, 'LP': 6, 'NF': 5}[feat]
    got = rng.choice([want, want, 3, 4, 6, 2])
    cls = rng.choice([ocnn.models.AutoEncoder, ocnn.models.OUNet])
    m = cls(got, 4, D, full, feature=feat).eval()
    def go():
      with torch.no_grad(): m(r.obj[i], copy.deepcopy(r.obj[i]) , False) if cls is ocnn.models.OUNet else m(r.obj[i], False)
    guard(r, 'channels', go, got=got, want=want)
    return r.ev
  def readers(rng):
    r = Rec()
    for _ in range(3):
      which = rng.choice(['modelnet40', 'completion', 'image2shape'])
      ext = rng.choice(['npz', 'npz', 'xyz', 'txt', 'obj', 'np', 'NPZ'])
      with scratch() as d:
        np.savez(os.path.join(d, 'a.npz'), points=np.random.rand(4, 3).astype('float32'), normals=np.random.rand(4, 3).astype('float32'))
        if ext != 'npz': os.rename(os.path.join(d, 'a.npz'), os.path.join(d, 'a.' + ext))
        fn = os.path.join(d, 'a.' + ext); mod = proj('datascts.' + which)
        if which == 'modelnet40': go = lambda: mod.read_file(fn)
        elif which == 'completion': go = lambda: mod.ReadFile(True)(fn)
        else: go = lambda: mod.ReadPoints(True, ext)(fn[:-len(ext) - 1])
        guard(r, 'reader', go, ext=ext, known=['npz', 'ply'])
    return r.ev
  for _ in reps(tier, 20, 250): yield points
  for _ in reps(tier, 20, 250): yield cloud_ops
  for _ in reps(tier, 20, 250): yield trees
  for _ in reps(tier, 50, 700): yield operators
  for _ in reps(tier, 10, 60): yield net
  for _ in reps(tier, 8, 60): yield readers
