"""Drivers for C39: back-propagation through every operator, network and objective."""
import torch, ocnn, copy, json
from rec import Rec, T
from gen import *
from drv_struct import reps, grow_random
from drv_ops import some_octree, pick_depth, ints, rows, chan, qpoints, pts_of, KL, F32, F64
import drv_net as dn
import drv_eval as de
import ocnn.nn as nn
import ocnn.modules as om
from ocnn.utils import scatter_add

def call(r, ev, fn, args=()): return r.call(ev, fn, args=args, m='grad')
BASE = {'stride': 1, 'kernel': '333', 'ne': False, 'd': 0, 't': 0, 'den': 8, 'q': [], 'to': 0, 'osize': 0, 'index': [], 'ind': []}

def distinct(rng, n, c, dt):
  """no two rows with the same value in a channel: the maximum is unique"""
  return torch.stack([torch.tensor(rng.sample(range(-2 * n - 3, 2 * n + 3), n)) for _ in range(c)], 1).to(dt).view(n, c) if n else torch.zeros(0, c, dtype=dt)

def flow(r, rng, ev, fn, x, fshape=None):
  """x: the features; fn(x) the operator; fshape: the shape the operator wants"""
  ev = dict(BASE, **ev); ev['e'] = 'flow'
  C = x.shape[-1]
  np_ = rng.choice([1, 1, 2]); side = rng.choice([0, 0, 3])
  ev.update(x=T(x), np=np_, side=side, gy={'k': 'none'}, out={'k': 'none'}, gx={'k': 'none'})
  leaf = x.clone().requires_grad_(True)
  how = rng.random()
  def f(ev):
    for q in range(np_):
      a = leaf if how < .5 else leaf * 1
      y = fn(a.view(fshape) if fshape else a)
      gy = ev.get('_gy')
      if gy is None:
        gy = ints(rng, y.numel() // C, C, 3, y.dtype, 'c'); ev['_gy'] = gy
      s = (y.reshape(-1, C) * gy).sum() if how < .8 else None
      if s is None: y.backward(gy.view(y.shape))
      else: s.backward()
    if side: (leaf * side).sum().backward()
    del ev['_gy']
    ev['gy'] = T(gy); ev['out'] = T(y.reshape(-1, C), 'f'); ev['gx'] = T(leaf.grad, 'f')
  call(r, ev, f, [('data', x)])
  ev.pop('_gy', None)

def ops_case(rng):
  r = Rec()
  i = some_octree(r, rng)
  o = r.obj[i]
  for _ in range(5):
    op = rng.choice(['pad', 'depad', 'col', 'colT', 'maxpool', 'unpool', 'avgpool', 'gpool', 'voxel', 'nearest', 'linear', 'upnearest', 'uplinear', 'align', 'scatter', 'norm', 'norm', 'drop'])
    dt = rng.choice([F32, F64])
    ne = rng.random() < .5
    C = rng.choice([1, 2, 3])
    d = pick_depth(r, rng, i, 0 if op in ('pad', 'depad', 'gpool', 'unpool', 'nearest', 'upnearest', 'uplinear', 'norm', 'drop') else 1, 80)
    n = rows(o, d, ne)
    base = {'op': op, 'id': i, 'd': d, 'ne': ne}
    if op == 'pad':
      flow(r, rng, dict(base, ne=True), lambda x: nn.octree_pad(x, o, d), ints(rng, rows(o, d, True), C, 4, dt))
    elif op == 'depad':
      flow(r, rng, dict(base, ne=False), lambda x: nn.octree_depad(x, o, d), ints(rng, rows(o, d, False), C, 4, dt))
    elif op in ('col', 'colT'):
      k, s = rng.choice(KERNELS), rng.choice([1, 2])
      K = eval('*'.join(k))
      R = int(o.nnum[d]) // 8 if s == 2 else n
      if R * K > 500: continue
      ev = dict(base, kernel=k, stride=s)
      if op == 'col': flow(r, rng, ev, lambda x: nn.octree2col(x, o, d, k, s, ne), ints(rng, n, C, 4, dt))
      else: flow(r, rng, ev, lambda x: nn.col2octree(x, o, d, k, s, ne), ints(rng, R * K, C, 4, dt), (R, K, C))
    elif op == 'maxpool':
      mod = rng.random() < .5
      def mp(x):
        ind = rng.random() < .4
        y = nn.OctreeMaxPool(ne, ind)(x, o, d) if mod else nn.octree_max_pool(x, o, d, ne, ind)
        y = y[0] if ind else y
        return torch.where(torch.isinf(y), torch.zeros_like(y), y)      # parents without a non-empty child
      flow(r, rng, base, mp, distinct(rng, n, C, dt))
    elif op == 'unpool':
      if d >= o.depth or int(o.nnum[d + 1]) > 200: continue
      m = int(o.nnum_nempty[d])
      ix = torch.tensor([[rng.randint(0, 7) for _ in range(C)] for _ in range(m)]).view(m, C)
      flow(r, rng, dict(base, ind=ix.tolist()), lambda x: nn.OctreeMaxUnpool(ne)(x, ix, o, d) if C == 2 else nn.octree_max_unpool(x, ix, o, d, ne), ints(rng, n, C, 4, dt))
    elif op == 'avgpool':
      k, s = rng.choice(KERNELS), rng.choice([1, 2])
      flow(r, rng, dict(base, kernel=k, stride=s), lambda x: nn.octree_avg_pool(x, o, d, k, s, ne) if C > 1 else nn.OctreeAvgPool(list(KL[k][0]), s, ne)(x, o, d), ints(rng, n, C, 4, F32))
    elif op == 'gpool':
      flow(r, rng, base, lambda x: nn.octree_global_pool(x, o, d, ne) if C > 1 else nn.OctreeGlobalPool(ne)(x, o, d), ints(rng, n, C, 4, dt))
    elif op == 'voxel':
      if d > 2: d = 2
      x = ints(rng, rows(o, d, ne), 1, 4, dt)
      flow(r, rng, dict(base, d=d), lambda x: nn.Octree2Voxel(ne)(x, o, d) if C > 1 else nn.octree2voxel(x, o, d, ne), x)
    elif op in ('nearest', 'linear'):
      bc = rng.random() < .6
      rs = d >= 1 and rng.random() < .5
      q = qpoints(rng, r, i, d, 8, rng.choice([1, 9, 24]), not bc, op == 'linear')
      dt2 = F32 if op == 'linear' else dt
      pts = pts_of(q, 8, d, rs, F32)
      flow(r, rng, dict(base, q=q), lambda x: nn.OctreeInterp(op, ne, bc, rs)(x, o, d, pts), ints(rng, n, C, 4, dt2))
    elif op in ('upnearest', 'uplinear'):
      t = rng.choice([u for u in range(d, min(d + 2, o.depth) + 1)])
      if t == d or int(o.nnum[t]) > 200: continue
      m = op[2:]
      flow(r, rng, dict(base, t=t), lambda x: nn.OctreeUpsample(m, ne)(x, o, d, t), ints(rng, n, C, 4, F32 if m == 'linear' else dt))
    elif op == 'align':
      depth = o.depth
      j = r.build(cloud(rng, depth, rng.randint(1, 8), o.batch_size), depth, o.full_depth, o.batch_size)
      flow(r, rng, dict(base, to=j), lambda x: nn.octree_align(x, o, r.obj[j], d, ne), ints(rng, n, C, 4, dt))
    elif op == 'scatter':
      m, sz = rng.randint(1, 12), rng.randint(1, 6)
      ix = torch.tensor([rng.randrange(sz) for _ in range(m)])
      flow(r, rng, dict(base, osize=sz, index=ix.tolist()), lambda x: scatter_add(x, ix, 0, None, sz), ints(rng, m, C, 4, dt))
    elif op == 'norm':
      d = pick_depth(r, rng, i, 0, 40)
      norm_case(r, rng, i, d, ne, dt)
    else: drop_case(r, rng, i, d, ne, dt)
  return r.ev

def norm_case(r, rng, i, d, ne, dt):
  o = r.obj[i]
  inst = rng.random() < .3
  g = rng.choice([1, 2, 3]); C = g * rng.choice([1, 2])
  if inst: g = C
  x = ints(rng, rows(o, d, ne), C, 3, dt)
  gy = ints(rng, x.shape[0], C, 2, dt, 'c')
  mod = (nn.OctreeInstanceNorm(C, ne) if inst else nn.OctreeGroupNorm(C, g, ne)).to(dt)
  w = [rng.choice([1, 1, 2, -1]) for _ in range(C)]
  with torch.no_grad(): mod.weights.copy_(torch.tensor([w])); mod.bias.copy_(torch.tensor([[rng.randint(-2, 2) for _ in range(C)]]))
  if rng.random() < .3: mod.eval()
  leaf = x.clone().requires_grad_(True)
  ev = {'e': 'normflow', 'id': i, 'd': d, 'ne': ne, 'g': g, 'x': T(x), 'gy': T(gy), 'wt': w, 'gx': {'k': 'none'}, 'gw': {'k': 'none'}, 'gb': {'k': 'none'}}
  def f(ev):
    (mod(leaf, o, d) * gy).sum().backward()
    ev['gx'] = T(leaf.grad, 'f'); ev['gw'] = T(mod.weights.grad, 'f'); ev['gb'] = T(mod.bias.grad, 'f')
  call(r, ev, f, [('data', x)])

def drop_case(r, rng, i, d, ne, dt):
  o = r.obj[i]
  kn, kd = rng.choice([(1, 2), (3, 4), (1, 4), (1, 16)])
  sc = rng.random() < .6
  n, C = rows(o, d, ne), rng.choice([1, 2])
  x = torch.tensor([[rng.choice([-2, -1, 1, 2]) for _ in range(C)] for _ in range(n)], dtype=dt).view(n, C)
  gy = ints(rng, n, C, 3, dt, 'c')
  mod = nn.OctreeDropPath(1 - kn / kd, ne, sc)
  leaf = x.clone().requires_grad_(True)
  ev = {'e': 'dropflow', 'id': i, 'd': d, 'ne': ne, 'kn': kn, 'kd': kd, 'scale': sc, 'x': T(x), 'gy': T(gy), 'out': {'k': 'none'}, 'gx': {'k': 'none'}}
  def f(ev):
    y = mod(leaf, o, d)
    (y * gy).sum().backward()
    ev['out'] = T(y, 'f'); ev['gx'] = T(leaf.grad, 'f')
  call(r, ev, f, [('data', x)])

# ------------------------------------------------------------------ chains
def dw(k, s, ne, C, dt, op):
  """a depth-wise convolution with the weights the model uses, the same in every channel"""
  m = nn.OctreeDWConv(C, list(KL[k][0]), s, ne).to(dt)
  K = eval('*'.join(k))
  w = [1 if op == 'avg' else ((j + 1) * 3 + 1) % 5 - 2 for j in range(K)]
  with torch.no_grad(): m.weights.copy_(torch.tensor(w, dtype=dt).view(K, 1, 1).expand(K, 1, C))
  return m
def step(o, st, C, dt):
  d, ne, op = st['d'], st['ne'], st['op']
  if op == 'pad': return lambda x: nn.octree_pad(x, o, d)
  if op == 'depad': return lambda x: nn.octree_depad(x, o, d)
  if op in ('conv', 'down', 'avg'):
    m = dw(st['kernel'], 1 if op == 'conv' else 2, ne, C, dt, op)
    return lambda x: m(x, o, d)
  if op == 'max': return lambda x: nn.octree_max_pool(x, o, d, ne)
  if op == 'unpool':
    ix = torch.tensor(st['ind']).view(-1, C)
    return lambda x: nn.octree_max_unpool(x, ix, o, d, ne)
  m = nn.OctreeUpsample('nearest', ne)
  return lambda x: m(x, o, d, d + 1)
def chain(r, rng, i, x, prog, dt):
  o = r.obj[i]
  C = x.shape[1]
  fs = [None if st['op'] in ('save', 'add') else step(o, st, C, dt) for st in prog]
  leaf = x.clone().requires_grad_(True)
  ev = {'e': 'chain', 'id': i, 'x': T(x), 'prog': prog, 'gy': {'k': 'none'}, 'out': {'k': 'none'}, 'gx': {'k': 'none'}}
  gy = None
  def f(ev):
    v, held = leaf, None
    for st, fn in zip(prog, fs):
      if st['op'] == 'save': held = v
      elif st['op'] == 'add': v = v + held
      else: v = fn(v)
    g = torch.Generator().manual_seed(sd)
    gy = torch.randint(-3, 4, v.shape, generator=g).to(v.dtype)
    (v * gy).sum().backward()
    ev['gy'], ev['out'], ev['gx'] = T(gy), T(v), T(leaf.grad)
  sd = rng.randrange(1 << 30)
  call(r, ev, f, [('data', x)])
def mk(op, d, ne, rng, o, C, kernel=None):
  return {'op': op, 'd': d, 'ne': ne, 'kernel': kernel or ('333' if op == 'conv' else '222'),
          'ind': [[rng.randint(0, 7) for _ in range(C)] for _ in range(int(o.nnum_nempty[d]))] if op == 'unpool' else []}
def feats(rng, n, C, dt):
  return distinct(rng, n, C, dt) if rng.random() < .7 else ints(rng, n, C, 3, dt)

def replay_chain(p):
  import random, os
  rng = random.Random(json.dumps(p, sort_keys=True) + os.environ.get('VERIF_SEED', '1'))
  r = Rec()
  i = r.build([[c[0]] + [4 * u + rng.randint(0, 3) for u in c[1:]] for c in p['cells']], p['depth'], p['full'], p['bs'])
  r.cneighs(i)
  o = r.obj[i]
  C = rng.choice([1, 2]); dt = F64
  x = distinct(rng, rows(o, p['depth'], p['ne']), C, dt)
  chain(r, rng, i, x, [mk(op, d, ne, rng, o, C) for op, d, ne in p['prog']], dt)
  return r.ev

def chain_case(rng):
  """longer random programs on arbitrary octrees"""
  r = Rec()
  i = some_octree(r, rng)
  o = r.obj[i]
  for _ in range(3):
    ne = rng.random() < .5; C = rng.choice([1, 1, 2]); dt = F64
    d = pick_depth(r, rng, i, 0, 70)
    x = distinct(rng, rows(o, d, ne), C, dt)
    if int(o.nnum[d]) > 120: continue
    prog, held, convs = [], None, 0
    for _ in range(rng.randint(2, 9)):
      ops = ['pad'] if ne else ['depad']
      if convs < 3:
        if d >= 1: ops += ['conv', 'conv', 'down', 'avg']
      if d >= 1 and dn.live_parents(o, d): ops += ['max', 'max']
      if d < o.depth and int(o.nnum[d + 1]) <= 120: ops += ['unpool', 'up', 'up']
      if held is None: ops += ['save'] * 2
      elif held == (d, ne) and prog[-1]['op'] != 'save': ops += ['add'] * 6
      op = rng.choice(ops)
      k = rng.choice(['333', '311', '131', '222', '133']) if op == 'conv' else rng.choice(['222', '222', '333']) if op == 'down' else '222'
      prog.append(mk(op, d, ne, rng, o, C, k))
      if op in ('conv', 'down', 'avg'): convs += 1
      if op in ('down', 'avg', 'max'): d -= 1
      elif op in ('unpool', 'up'): d += 1
      elif op in ('pad', 'depad'): ne = not ne
      elif op == 'save': held = (d, ne)
      elif op == 'add': held = None
    if held is not None:
      if held == (d, ne) and prog[-1]['op'] != 'save': prog.append(mk('add', d, ne, rng, o, C))
      else: prog = [st for k, st in enumerate(prog) if not (st['op'] == 'save' and all(q['op'] != 'add' for q in prog[k:]))]
    if prog: chain(r, rng, i, x, prog, dt)
  return r.ev

# ------------------------------------------------------------------ rates of change
EPS = (1e-6, 1e-7, 1e-8)     # the kinks of relu and max vanish with the step, a wrong gradient does not
def deriv(r, rng, what, value, leaves, most=14):
  """value() -> scalar (double) depending on the leaf tensors; leaves: [(name, tensor)]"""
  ev = {'e': 'deriv', 'what': what, 'dirs': [], 'val': True}
  def grads(ev):
    for _, p in leaves: p.grad = None; p.requires_grad_(True)
    v = value()
    ev['val'] = bool(v.requires_grad)
    if v.requires_grad: v.backward()
    return abs(float(v.detach())), [None if p.grad is None else p.grad.clone() for _, p in leaves]
  def f(ev):
    v, gr = grads(ev)
    if not ev['val']: return
    sets = [list(range(len(leaves)))] * 2 + [[k] for k in rng.sample(range(len(leaves)), min(most, len(leaves)))]
    if len(leaves) > 4: sets += [rng.sample(range(len(leaves)), len(leaves) // 2) for _ in range(2)]
    g = torch.Generator().manual_seed(rng.randrange(1 << 30))
    for ks in sets:
      dirs = {k: torch.randn(leaves[k][1].shape, generator=g, dtype=F64) for k in ks}
      rec = {'names': [leaves[k][0] for k in ks][:3], 'tries': []}
      ev['dirs'].append(rec)
      for _ in range(4):
        gi = sum(float((gr[k] * dirs[k]).sum()) for k in ks if gr[k] is not None)
        ds = []
        with torch.no_grad():
          for eps in EPS:
            vals = []
            for s in (1, -2, 1):
              for k in ks: leaves[k][1].add_(dirs[k], alpha=s * eps)
              if len(vals) < 2: vals.append(float(value()))
            ds.append((vals[0] - vals[1]) / (2 * eps))
            if abs(ds[-1] - gi) < 1e-3 * abs(gi): break          # agreed: no finer step is needed
        u = max(abs(gi), min(abs(z) for z in ds), 1e-3, 1e-4 * v)
        fx = lambda z: int(max(-2 ** 30, min(2 ** 30, round(z / u * 65536))))
        rec['tries'].append({'gi': fx(gi), 'ds': [fx(z) for z in ds]})
        if min(abs(gi - z) for z in ds) < 4e-3 * u: break
        with torch.no_grad():                                    # elsewhere nearby
          for _, p in leaves: p.add_(torch.randn(p.shape, generator=g, dtype=F64), alpha=1e-3)
        v, gr = grads(ev)
  call(r, ev, f)

def dbl(o):
  for a in ('points', 'normals', 'features'):
    l = getattr(o, a)
    for k in range(len(l)):
      if l[k] is not None: l[k] = l[k].double()

def quiet_bn(net, train, bn=True):
  """training mode without the random layers; bn: with batch statistics (too curved for whole networks)"""
  net.train(train)
  for m in net.modules():
    if isinstance(m, (torch.nn.Dropout, nn.OctreeDropPath)) or (not bn and isinstance(m, torch.nn.BatchNorm1d)): m.eval()

def scal(rng, outs):
  g = torch.Generator().manual_seed(rng)
  return sum((t * torch.randn(t.shape, generator=g, dtype=F64)).sum() for t in outs)

NETS = ['lenet', 'resnet', 'segnet', 'unet', 'hrnet', 'ae', 'ounet', 'i2s']
def net_case(arch):
  def f(rng):
    r = Rec()
    torch.manual_seed(rng.randrange(10 ** 6))
    ne = rng.random() < .5
    D, F, st = {'lenet': (4, rng.choice([1, 2]), 2), 'resnet': (4, 1, rng.choice([1, 2])), 'segnet': (4, rng.choice([1, 2]), 2),
                'unet': (5, rng.choice([1, 2]), 0), 'hrnet': (5, 2, 3), 'ae': (4, 2, 0), 'ounet': (4, 2, 0), 'i2s': (3, 1, 0)}[arch]
    if arch == 'resnet': D = 3 + st
    if arch in ('ae', 'ounet', 'i2s'): ne = False
    i = dn.net_octree(r, rng, D, F, ne, nmax=4)
    o = r.obj[i]
    if arch in ('lenet', 'segnet', 'hrnet', 'resnet') and ne and not all(dn.live_parents(o, d) for d in range(1, D + 1)): ne = False
    c = {'arch': arch, 'D': D, 'F': F, 'ne': ne, 'r': 1, 'st': st, 'm': rng.choice(['linear', 'nearest']), 'v': 1, 'code': 4}
    u = {'c': [4, 4, 6, 6, 8], 'dc': [8, 6, 6, 4, 4], 'eb': [1, 2, 1, 1], 'db': [1, 1, 2, 1], 'hd': 4, 'bn': 2, 'kind': rng.choice([1, 2])}
    net = dn.make_net(c, u, 4 if arch in ('ae', 'ounet') else 3, 3).double()
    quiet_bn(net, rng.random() < .6, False)
    x = torch.randn(rows(o, D, ne), 3, dtype=F64)
    pts = dn.query_pts(rng, o, 6).double()
    sd = rng.randrange(1 << 30)
    if arch in ('ae', 'ounet'):
      o2 = copy.deepcopy(o); dbl(o2)
      def value():
        z = net(o2, False) if arch == 'ae' else net(o2, o2, False)
        return scal(sd, [z['logits'][d] for d in sorted(z['logits'])] + [z['signal']])
      lv = []
    elif arch == 'i2s':
      code = torch.randn(o.batch_size * 8 ** F, 8, dtype=F64)
      def value():
        z = net.decoder(code, o, False)
        return scal(sd, [z['logits'][d] for d in sorted(z['logits'])] + [z['signal']])
      lv = [('code', code)]
    else:
      value = lambda: scal(sd, [net(x, o, D, pts) if arch in ('segnet', 'unet') else net(x, o, D)])
      lv = [('data', x)]
    lv += [(n, p) for n, p in net.named_parameters() if not n.startswith('resnet18.')]
    deriv(r, rng, arch, value, lv)
    return r.ev
  return f

def blk_case(rng):
  r = Rec()
  torch.manual_seed(rng.randrange(10 ** 6))
  i = some_octree(r, rng)
  o = r.obj[i]
  ne = rng.random() < .5
  d = pick_depth(r, rng, i, 1, 90)
  if rows(o, d, ne) < 2 or rows(o, d - 1, ne) < 2: return r.ev
  ci, co = rng.choice([(4, 4), (4, 8), (8, 4)])
  kind = rng.choice(['res', 'res2', 'resg', 'blocks', 'ckpt', 'dec', 'cnn'])
  s = rng.choice([1, 2])
  if d < 2 or (ne and not dn.live_parents(o, d)): s = 1      # there is no neighbour table at depth 0
  if kind == 'res': m = om.OctreeResBlock(ci, co, s, 2, ne)
  elif kind == 'res2': m = om.OctreeResBlock2(ci, co, s, 2, ne)
  elif kind == 'resg': m = om.OctreeResBlockGn(ci, co, s, 2, ne, group=2) if hasattr(om, 'OctreeResBlockGn') else om.OctreeResBlock(ci, co, s, 2, ne)
  elif kind in ('blocks', 'ckpt'): m = om.OctreeResBlocks(ci, co, rng.choice([1, 2, 3]), 2, ne, use_checkpoint=kind == 'ckpt'); s = 1
  elif kind == 'dec':
    if int(o.nnum[d]) > 200 or d < 2: return r.ev
    m = om.OctreeDeconvBnRelu(ci, co, [2], 2, ne); d -= 1
  else: m = om.OctreeConvBnRelu(ci, co, rng.choice([[3], [2]]), s, ne)
  dn.rnd_bn(m); m.double()
  quiet_bn(m, rng.random() < .5)
  x = torch.randn(rows(o, d, ne), ci, dtype=F64)
  sd = rng.randrange(1 << 30)
  if x.shape[0] < 2: return r.ev
  deriv(r, rng, kind, lambda: scal(sd, [m(x, o, d)]), [('data', x)] + list(m.named_parameters()))
  return r.ev

def obj_case(rng):
  """the value that a training step returns, as a function of what the model put out"""
  r = Rec()
  which = rng.choice(['segmentation', 'classification', 'autoencoder', 'completion', 'image2shape'])
  mod = de.proj(which)
  g = torch.Generator().manual_seed(rng.randrange(1 << 30))
  rnd = lambda *s: torch.randn(*s, generator=g, dtype=F64)
  bs, D, full = rng.choice([1, 2, 3]), rng.choice([2, 3, 4]), rng.randint(0, 2)
  mdl = de.NS(feature='P', nempty=True)
  if which == 'segmentation':
    K = rng.choice([2, 3, 5]); mask = rng.choice([-1, 0])
    pts = []
    for _ in range(bs):
      p = cloud(rng, D, rng.randint(1, 6))
      lab = [rng.randrange(K) for _ in p]; lab[0] = K - 1
      pts.append({'points': de.Points(r.coords(p, D), torch.ones(len(p), 3), None, torch.tensor(lab).float().view(-1, 1)), 'filename': 'a'})
    leaf = [('logit', rnd(sum(q['points'].npt for q in pts), K))]
    dt = de.NS(depth=D, full_depth=full)
    s = de.solver(mod.SegSolver, FLAGS=de.NS(DATA=de.NS(train=dt, test=dt), MODEL=mdl, LOSS=de.NS(num_class=K, mask=mask)), model=lambda *a: leaf[0][1] * 1)
    batch = lambda: de.CollateBatch()(copy.deepcopy(pts))
  else:
    p = de.distinct_cloud(rng, D, rng.randint(1, 6), bs)
    i = r.build(p, D, full, bs, normals(rng, len(p), 'axis'))
    o = r.obj[i]; r.cneighs(i)
    if which == 'classification':
      K = rng.choice([2, 5, 40]); leaf = [('logit', rnd(bs, K))]
      lab = torch.tensor([rng.randrange(K) for _ in range(bs)])
      s = de.solver(mod.ClsSolver, FLAGS=de.NS(MODEL=mdl), model=lambda *a: leaf[0][1] * 1)
      batch = lambda: {'octree': o, 'label': lab}
    else:
      cls = {'autoencoder': 'AutoEncoderSolver', 'completion': 'CompletionSolver', 'image2shape': 'Image2ShapeSolver'}[which]
      leaf = [('logit%d' % d, rnd(int(o.nnum[d]), 2)) for d in range(full, D + 1)] + [('signal', rnd(int(o.nnum_nempty[D]), 4))]
      def model(*a, **k):
        return {'logits': {d: leaf[d - full][1] * 1 for d in range(full, D + 1)}, 'signal': leaf[-1][1] * 1, 'octree_out': o}
      s = de.solver(getattr(mod, cls), model=model)
      batch = lambda: {'octree': o, 'octree_gt': o, 'image': torch.zeros(bs, 3, 4, 4), 'points': [], 'filename': []}
  deriv(r, rng, which, lambda: s.train_step(batch())['train/loss'], leaf)
  return r.ev

def drive_C39(tier):
  for k in reps(tier, 8, 60):
    for a in NETS: yield net_case(a)
  for _ in reps(tier, 50, 500): yield obj_case
  for _ in reps(tier, 120, 1500): yield chain_case
  for _ in reps(tier, 150, 1200): yield blk_case
  for _ in reps(tier, 420, 4000): yield ops_case
