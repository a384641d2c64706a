"""Drivers for the network operators C09..C21 and helpers C31."""
import torch, ocnn
from rec import Rec, T
from gen import *
from drv_struct import reps, grow_random, reshuffle
import ocnn.nn as nn
from ocnn.utils import scatter_add, cumsum, range_grid, resize_with_last_val, list2str, trunc_div

F32, F64 = torch.float32, torch.float64
KL = {'333': [[3], [3, 3, 3]], '222': [[2], [2, 2, 2]], '311': [[3, 1, 1], [3, 1]], '131': [[1, 3, 1]],
      '113': [[1, 1, 3]], '331': [[3, 3, 1]], '313': [[3, 1, 3]], '133': [[1, 3, 3], [1, 3]]}

def some_octree(r, rng, big=False, mind=1):
  """An octree with constructed neighbour tables: built, merged or grown."""
  kind = rng.choice(['build', 'build', 'build', 'merge', 'grow'])
  depth, full = rng.choice([c for c in [(1, 0), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (3, 2), (4, 1), (4, 2), (5, 2), (6, 0)] if c[0] >= mind])
  cap = 14 if big else 7
  if kind == 'build':
    bs = rng.choice([1, 1, 2, 3])
    i = r.build(cloud(rng, depth, rng.randint(1, cap), bs, rng.choice([None, 'center', 'border', 'cluster'])), depth, full, bs)
    r.cneighs(i)
  elif kind == 'merge':
    ids = [r.build(cloud(rng, depth, rng.randint(1, 5)), depth, full, 1) for _ in range(rng.randint(1, 3))]
    i = r.merge(ids)
    r.cneighs(i)
  else:
    i = r.init(depth, full, rng.choice([1, 2]))
    grow_random(r, rng, i, depth, full, 0.15)
    if full == 0: pass
  return i

def pick_depth(r, rng, i, lo=1, cap=330):
  o = r.obj[i]
  ds = [d for d in range(lo, o.depth + 1) if int(o.nnum[d]) <= cap]
  if not ds: ds = [lo]
  return rng.choice(ds + [max(ds)] * 2)

def ints(rng, n, c, m=4, dtype=F32, layout=None):
  t = torch.tensor([[rng.randint(-m, m) for _ in range(c)] for _ in range(n)], dtype=dtype).view(n, c)
  layout = layout or rng.choice('ccts')
  if layout == 't': t = t.t().contiguous().t()
  elif layout == 's': t = torch.cat([t, t + 1], 1)[:, :c]
  return t

def chan(rng):
  """the number of channels: mostly a few, sometimes more than a small power of two"""
  return rng.choice([1, 1, 1, 2, 2, 2, 3, 3, 3, 3, 5, 9, 17])

def rows(o, d, ne): return int(o.nnum_nempty[d] if ne else o.nnum[d])
def itens(rng, shape, m=3, dtype=F32):
  n = 1
  for s in shape: n *= s
  return torch.tensor([rng.randint(-m, m) for _ in range(n)], dtype=dtype).view(shape)

def op(r, ev, fn, args):
  if 'id' in ev: r.__dict__.setdefault('hist', []).append((dict(ev), fn, args))
  return r.call(ev, fn, args=args, m='ops')

def redo(r, rng, i, upto=4, ok=lambda ev: True):
  """The octree becomes another tree of the same layer sizes; the calls made so far are repeated on
  it with the same arguments: no result may depend on what the octree was before."""
  hist = [h for h in getattr(r, 'hist', []) if h[0]['id'] == i and ok(h[0])]
  if not hist: return
  o = r.obj[i]
  if any(int(o.nnum[d]) > 3000 for d in range(o.depth + 1)): return
  reshuffle(r, rng, i, rng.randint(o.full_depth, o.depth), False)
  r.cneighs(i)
  for ev, fn, args in rng.sample(hist, min(upto, len(hist))):
    r.call(dict(ev), fn, args=args, m='ops')

# ------------------------------------------------------------------ C09
def ev_col(r, i, d, k, s, ne, x, mode='i'):
  def f(ev): ev['out'] = T(nn.octree2col(x, r.obj[i], d, k, s, ne), mode)
  op(r, {'e': 'col', 'id': i, 'd': d, 'kernel': k, 'stride': s, 'ne': ne, 'x': T(x)}, f, [('data', x)])
def ev_colT(r, i, d, k, s, ne, x):
  def f(ev): ev['out'] = T(nn.col2octree(x, r.obj[i], d, k, s, ne))
  op(r, {'e': 'colT', 'id': i, 'd': d, 'kernel': k, 'stride': s, 'ne': ne, 'x': T(x)}, f, [('data', x)])

def drive_C09(tier):
  def one(rng):
    r = Rec()
    i = some_octree(r, rng)
    o = r.obj[i]
    for _ in range(4):
      d = pick_depth(r, rng, i, cap=140)
      k, s, ne = rng.choice(KERNELS), rng.choice([1, 2]), rng.random() < .5
      C, dt = rng.randint(1, 3), rng.choice([F32, F64, torch.int64])
      ev_col(r, i, d, k, s, ne, ints(rng, rows(o, d, ne), C, rng.choice([9, 100000]), dt))
      R = o.nnum[d] // 8 if s == 2 else rows(o, d, ne)
      K = eval('*'.join(k))
      if int(R) * K * C < 4000:
        ev_colT(r, i, d, k, s, ne, itens(rng, (int(R), K, C), 3, dt))
    if rng.random() < .4: redo(r, rng, i)
    return r.ev
  for _ in reps(tier, 70, 800): yield one

# ------------------------------------------------------------------ C10..C13
def ev_lin(r, rng, i, d, opn, k, s, ne, ci, co, bias, dt, method, grad, wdt=None, g=1, m=3, fn=None, reuse=None):
  o = r.obj[i]
  K = eval('*'.join(k))
  ks = list(rng.choice(KL[k]))
  dec = opn == 'deconv'
  nin = rows(o, d, ne)
  inc = co if dec else ci
  kc = K * inc
  mb = int(2e8) if method in ('direct', 'big') else kc * rng.choice([1, 1, 2, 3, 5, 7]) + rng.randint(0, kc - 1)
  wdt = wdt or dt
  if reuse is not None:             # the same layer object, on another octree or depth
    mod = reuse; mb = getattr(mod, 'max_buffer', 0)
    for p in mod.parameters(): p.grad = None
  elif opn == 'conv':
    mod = nn.OctreeConv(ci, co, ks, s, ne, direct_method=method == 'direct', use_bias=bias, max_buffer=mb)
  elif opn == 'deconv':
    mod = nn.OctreeDeconv(ci, co, ks, s, ne, direct_method=method == 'direct', use_bias=bias, max_buffer=mb)
  elif opn == 'dwconv':
    mod = nn.OctreeDWConv(ci, ks, s, ne, use_bias=bias, max_buffer=mb)
  else:
    mod = nn.OctreeGroupConv(ci, co, ks, s, ne, use_bias=bias, group=g)
  mod = mod.to(wdt)
  rw = rng.random() < .75
  with torch.no_grad():
    for p in mod.parameters():
      p.copy_(itens(rng, tuple(p.shape), m))
      p.requires_grad_(rw)
  x = ints(rng, nin, ci, rng.choice([m, m, m, 3000]), dt)
  rx = grad and (rng.random() < .75 or not rw)
  if rx: x = x.detach().requires_grad_(True) if rng.random() < .7 else x.clone().requires_grad_(True)
  convs = mod.convs if opn == 'gconv' else [mod]
  W = [c.weights.detach().long().tolist() for c in convs]
  B = []
  if bias:
    for c in convs: B += c.bias.detach().long().tolist()
  npass = rng.choice([1, 1, 2]) if grad else 1
  nod = d + s - 1 if dec else (d - 1 if s == 2 else d)
  gy = ints(rng, rows(o, nod, ne), co, rng.choice([m, m, m, 2000]) if int(x.abs().max() if x.numel() else 0) <= m else m, dt)
  grad = grad and (rx or rw)
  ev = {'e': 'lin', 'op': opn, 'id': i, 'd': d, 'kernel': k, 'stride': s, 'ne': ne, 'ci': ci, 'co': co,
        'g': g, 'x': T(x), 'wt': W[0] if opn != 'gconv' else W, 'b': B, 'grad': grad, 'rx': rx, 'rw': rw,
        'np': npass, 'gy': T(gy), 'method': method, 'max_buffer': mb,
        'gx': {'k': 'none'}, 'gw': {'k': 'none'}, 'gb': {'k': 'none'}}
  def f(ev):
    y = mod(x, o, d)
    ev['out'] = T(y)
    if grad:
      for q in range(npass):
        if q: y = mod(x, o, d)
        y.backward(gy)
      ev['gx'] = T(x.grad)
      gw = [c.weights.grad for c in convs]
      ev['gw'] = T(gw[0]) if opn != 'gconv' else T(torch.stack(gw) if gw[0] is not None else None)
      if bias:
        gb = [c.bias.grad for c in convs]
        ev['gb'] = T(None if gb[0] is None else torch.cat(gb))
  op(r, ev, f, [('data', x.detach()), ('grad', gy), ('weights', [p.detach() for p in mod.parameters()])])
  return mod

def lin_case(opn, grad):
  def one(rng):
    r = Rec()
    i = some_octree(r, rng)
    o = r.obj[i]
    last = None
    for _ in range(4):
      if last is not None and rng.random() < .45:
        k, s, ne, ci, co, bias, wdt, g, method, mod = last
        how = rng.random()
        if how < .4: i = some_octree(r, rng); o = r.obj[i]
        elif how < .7:
          reshuffle(r, rng, i, rng.randint(o.full_depth, o.depth), False); r.cneighs(i)
          ev_lin(r, rng, i, d, opn, k, s, ne, ci, co, bias, wdt, method, grad, wdt, g, reuse=mod)
          continue
        if opn == 'deconv' and s == 2: ds = [d for d in range(0, o.depth) if int(o.nnum[d + 1]) <= 150]
        else: ds = [d for d in range(1, o.depth + 1) if int(o.nnum[d]) <= 150]
        if ds:
          d = rng.choice(ds)
          ev_lin(r, rng, i, d, opn, k, s, ne, ci, co, bias, wdt, method, grad, wdt, g, reuse=mod)
        continue
      k, s, ne = rng.choice(KERNELS), rng.choice([1, 2]), rng.random() < .5
      lo = 1
      if opn == 'deconv' and s == 2:
        if o.depth < 1: continue
        ds = [d for d in range(0, o.depth) if int(o.nnum[d + 1]) <= 150]
        if not ds: continue
        d = rng.choice(ds)
      else: d = pick_depth(r, rng, i, 1, 150)
      ci, co = rng.randint(1, 3), rng.randint(1, 3)
      if rng.random() < .06: ci, co = rng.choice([(8, 1), (1, 9), (5, 4)])
      g = 1
      if opn == 'dwconv': co = ci
      if opn == 'gconv':
        g = rng.choice([1, 2, 3, 4, 6]); ci, co = g * rng.choice([1, 2]), g * rng.choice([1, 2])
      dt = rng.choice([F32, F32, F64])
      method = rng.choice(['direct', 'buffer', 'buffer', 'big'])
      wdt = rng.choice([F32, F64]) if method != 'direct' and not rng.random() < .8 and opn != 'gconv' else dt
      bias = rng.random() < .5
      mod = ev_lin(r, rng, i, d, opn, k, s, ne, ci, co, bias, dt, method, grad, wdt, g)
      last = (k, s, ne, ci, co, bias, wdt, g, method, mod)
    return r.ev
  return one

def drive_C10(tier):
  for _ in reps(tier, 90, 1000): yield lin_case('conv', False)
def drive_C11(tier):
  for _ in reps(tier, 90, 1000): yield lin_case('deconv', False)
def drive_C12(tier):
  for _ in reps(tier, 36, 400):
    yield lin_case('conv', True)
    yield lin_case('deconv', True)
    if _ % 2 == 0: yield lin_case('dwconv', True)
    if _ % 4 == 0: yield lin_case('gconv', True)
def drive_C13(tier):
  for _ in reps(tier, 40, 500):
    yield lin_case('dwconv', False)
    yield lin_case('gconv', False)

# ------------------------------------------------------------------ C14
def ev_maxpool(r, rng, i, d, ne, x, ind=True):
  o = r.obj[i]
  keep = {}
  def f(ev):
    if rng.random() < .5: y = nn.octree_max_pool(x, o, d, ne, return_indices=ind)
    else: y = nn.OctreeMaxPool(ne, ind)(x, o, d)
    if ind: y, ix = y; ev['ind'] = T(ix); keep['ix'] = ix
    else: ev['ind'] = {'k': 'none'}
    ev['out'] = T(y); keep['y'] = y
  op(r, {'e': 'maxpool', 'id': i, 'd': d, 'ne': ne, 'x': T(x)}, f, [('data', x)])
  return keep
def ev_unpool(r, rng, i, d, ne, x, ix):
  o = r.obj[i]
  def f(ev):
    if rng.random() < .5: y = nn.octree_max_unpool(x, ix, o, d, ne)
    else: y = nn.OctreeMaxUnpool(ne)(x, ix, o, d)
    ev['out'] = T(y)
  op(r, {'e': 'unpool', 'id': i, 'd': d, 'ne': ne, 'x': T(x), 'ind': T(ix)}, f, [('data', x), ('indices', ix)])

def drive_C14(tier):
  def one(rng):
    r = Rec()
    i = some_octree(r, rng)
    o = r.obj[i]
    for _ in range(4):
      d = pick_depth(r, rng, i, 1)
      ne = rng.random() < .5
      C = chan(rng)
      dt = rng.choice([F32, F64])
      x = ints(rng, rows(o, d, ne), C, rng.choice([1, 9]), dt)
      if rng.random() < .5: x = x - rng.choice([12, 12, 300, 5000, 10 ** 6])    # all negative: zero must not win
      elif rng.random() < .3: x = x * 10 ** 5
      kp = ev_maxpool(r, rng, i, d, ne, x, rng.random() < .85)
      if 'ix' in kp:
        y = ints(rng, rows(o, d - 1, ne), C, 9, dt) if rng.random() < .5 else torch.nan_to_num(kp['y'].detach(), neginf=0.)
        ev_unpool(r, rng, i, d - 1, ne, y, kp['ix'])
      if not ne and rng.random() < .4:
        n = int(o.nnum_nempty[d - 1])
        ix = torch.tensor([[rng.randint(0, 7) for _ in range(C)] for _ in range(n)]).view(n, C)
        ev_unpool(r, rng, i, d - 1, ne, ints(rng, rows(o, d - 1, ne), C, 9, dt), ix)
    if rng.random() < .4: redo(r, rng, i, ok=lambda ev: not (ev["ne"] and ev["e"] == "unpool"))
    return r.ev
  for _ in reps(tier, 90, 1000): yield one

# ------------------------------------------------------------------ C15
def ev_avgpool(r, rng, i, d, k, s, ne, x):
  o = r.obj[i]
  def f(ev):
    if rng.random() < .5: y = nn.octree_avg_pool(x, o, d, k, s, ne)
    else: y = nn.OctreeAvgPool(list(KL[k][0]), s, ne)(x, o, d)
    ev['out'] = T(y, 'f')
  op(r, {'e': 'avgpool', 'id': i, 'd': d, 'kernel': k, 'stride': s, 'ne': ne, 'x': T(x)}, f, [('data', x)])
def ev_gpool(r, rng, i, d, ne, x):
  o = r.obj[i]
  def f(ev):
    y = nn.octree_global_pool(x, o, d, ne) if rng.random() < .5 else nn.OctreeGlobalPool(ne)(x, o, d)
    ev['out'] = T(y, 'f')
  op(r, {'e': 'gpool', 'id': i, 'd': d, 'ne': ne, 'x': T(x)}, f, [('data', x)])
def drive_C15(tier):
  def one(rng):
    r = Rec()
    i = some_octree(r, rng)
    o = r.obj[i]
    for _ in range(4):
      d = pick_depth(r, rng, i, 1)
      k, s, ne = rng.choice(KERNELS), rng.choice([1, 2]), rng.random() < .5
      ev_avgpool(r, rng, i, d, k, s, ne, ints(rng, rows(o, d, ne), chan(rng), 9))
      d = pick_depth(r, rng, i, 0)
      ne = rng.random() < .5
      ev_gpool(r, rng, i, d, ne, ints(rng, rows(o, d, ne), chan(rng), 9, rng.choice([F32, F64])))
    if rng.random() < .4: redo(r, rng, i)
    return r.ev
  def large(rng):             # one batch element with thousands of nodes
    r = Rec()
    bs = rng.choice([1, 2])
    pts = [[b] + q[1:] for b in range(bs) for q in cloud(rng, 5, 650 if b == 0 else 3, 1, 'uniform')]
    i = r.build(pts, 5, 4, bs)
    o = r.obj[i]
    for d, ne in ((4, False), (5, False)): ev_gpool(r, rng, i, d, ne, ints(rng, rows(o, d, ne), 1, 9, F32))
    return r.ev
  for _ in reps(tier, 2, 12): yield large
  for _ in reps(tier, 80, 900): yield one

# ------------------------------------------------------------------ C16
def ev_pad(r, i, d, x, val):
  def f(ev): ev['out'] = T(nn.octree_pad(x, r.obj[i], d, float(val)) if val else nn.octree_pad(x, r.obj[i], d))
  op(r, {'e': 'pad', 'id': i, 'd': d, 'x': T(x), 'val': T(float(val))['v']}, f, [('data', x)])
def ev_depad(r, i, d, x):
  def f(ev): ev['out'] = T(nn.octree_depad(x, r.obj[i], d))
  op(r, {'e': 'depad', 'id': i, 'd': d, 'x': T(x)}, f, [('data', x)])
def ev_voxel(r, rng, i, d, ne, x):
  def f(ev):
    y = nn.octree2voxel(x, r.obj[i], d, ne) if rng.random() < .5 else nn.Octree2Voxel(ne)(x, r.obj[i], d)
    ev['out'] = T(y)
  op(r, {'e': 'voxel', 'id': i, 'd': d, 'ne': ne, 'x': T(x)}, f, [('data', x)])
def drive_C16(tier):
  def one(rng):
    r = Rec()
    i = some_octree(r, rng)
    o = r.obj[i]
    for _ in range(5):
      d = pick_depth(r, rng, i, 0)
      dt = rng.choice([F32, F64, torch.int64, torch.int32])
      C = chan(rng)
      x = ints(rng, rows(o, d, True), C, rng.choice([9, 100000]), dt)
      val = rng.choice([0, 0, 5, -7, 100003, float('inf'), float('nan')])
      ev_pad(r, i, d, x, val if dt.is_floating_point else 0)
      ev_depad(r, i, d, ints(rng, rows(o, d, False), C, 9, dt))
      d = rng.choice([q for q in range(0, min(3, o.depth) + 1)])
      ne = rng.random() < .5
      ev_voxel(r, rng, i, d, ne, ints(rng, rows(o, d, ne), rng.randint(1, 2), 9, dt))
    if rng.random() < .4: redo(r, rng, i)
    return r.ev
  def deepvox(depth):
    def f(rng):
      r = Rec()
      n = rng.randint(4, 12)
      p = cloud(rng, depth, n, 1, rng.choice(['border', 'corner', 'uniform']))
      g = 4 * 2 ** depth - 1
      p += [[0, a, b, c] for a in (0, g) for b in (0, g) for c in (0, g)]        # all the corners of the grid
      i = r.build(p, depth, rng.choice([1, 2]), 1)
      for ne in (False, True): ev_voxel(r, rng, i, depth, ne, ints(rng, rows(r.obj[i], depth, ne), 1, 9))
      return r.ev
    return f
  yield deepvox(5)
  yield deepvox(4)
  for _ in reps(tier, 60, 700): yield one

# ------------------------------------------------------------------ C17
def ev_align(r, i, j, d, ne, x):
  def f(ev): ev['out'] = T(nn.octree_align(x, r.obj[i], r.obj[j], d, ne))
  op(r, {'e': 'align', 'id': i, 'to': j, 'd': d, 'ne': ne, 'x': T(x)}, f, [('data', x)])
def drive_C17(tier):
  def one(rng):
    r = Rec()
    depth, full = rng.choice([(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 1), (5, 2), (7, 1), (10, 1)])
    bs = rng.choice([1, 1, 2, 3])
    n = rng.randint(1, 10)
    p = cloud(rng, depth, n, bs)
    ids = [r.build(p, depth, full, bs)]
    g = 4 << depth
    q = [a for a in p if rng.random() < .6] + cloud(rng, depth, rng.randint(1, 6), bs)
    b2 = bs + rng.choice([0, 0, 1])
    if b2 > bs: q += [[bs] + a[1:] for a in rng.sample(p, 1)]
    ids.append(r.build(q, depth, full, b2))
    if depth <= 3:
      j = r.init(depth, full, rng.choice([1, bs])); grow_random(r, rng, j, depth, full, 0.3); ids.append(j)
    for _ in range(6):
      a, b = rng.choice(ids), rng.choice(ids)
      d = rng.randint(0, depth); ne = rng.random() < .5
      dt = rng.choice([F32, F64, torch.int64, torch.int32, torch.float16])
      ev_align(r, a, b, d, ne, ints(rng, rows(r.obj[a], d, ne), chan(rng), 9, dt))
    if rng.random() < .4: redo(r, rng, rng.choice(ids))
    return r.ev
  def sv(rng):
    r = Rec()
    for _ in range(4):
      d = rng.choice([2, 3, 5, 16])
      cs = sorted({(rng.randint(0, 2), rng.randrange(1 << d), rng.randrange(1 << d), rng.randrange(1 << d)) for _ in range(rng.randint(1, 12))})
      c = torch.tensor(cs)
      key = ocnn.octree.xyz2key(c[:, 1], c[:, 2], c[:, 3], c[:, 0], d)
      perm = key.argsort()
      key, c = key[perm], c[perm]
      q = torch.cat([c[torch.randint(len(c), (8,))], torch.tensor([[rng.randint(0, 4)] + [rng.randrange(1 << d) for _ in range(3)] for _ in range(8)])])
      qk = ocnn.octree.xyz2key(q[:, 1], q[:, 2], q[:, 3], q[:, 0], d)
      v = ints(rng, len(c), 2, 9, rng.choice([F32, F64, torch.int64]))
      def f(ev): ev['out'] = T(nn.search_value(v, key, qk))
      op(r, {'e': 'searchv', 'keys': c.tolist(), 'q': q.tolist(), 'x': T(v)}, f, [('value', v), ('key', key), ('query', qk)])
    return r.ev
  for _ in reps(tier, 80, 900): yield one
  for _ in reps(tier, 16, 150): yield sv

# ------------------------------------------------------------------ C18, C19
def qpoints(rng, r, i, d, den, n, inside, stencil=False):
  o = r.obj[i]
  g = (1 << d) * den
  bs = o.batch_size
  x, y, z, b = [t.tolist() for t in o.xyzb(d)]
  out = []
  for _ in range(n):
    m = rng.random()
    if m < .6:
      j = rng.randrange(len(b)); c = [b[j], x[j] * den + rng.randint(-den // 2, den + den // 2), y[j] * den + rng.randint(-2, den + 1), z[j] * den + rng.randrange(den)]
      rest = c[1:]; rng.shuffle(rest) if rng.random() < .1 else None
      c = [c[0]] + rest
    elif m < .8: c = [rng.randrange(bs)] + [rng.choice([0, den // 2, g - 1, g - den // 2, rng.randrange(g)]) for _ in range(3)]
    else: c = [rng.randrange(bs)] + [rng.randrange(g) for _ in range(3)]
    if not inside and rng.random() < .3:
      a = rng.randrange(1, 4); c[a] = rng.choice([-1, -den, -3 * den - 1, g, g + 1, g + 5 * den, 2 * g])
    if inside:
      lo, hi = (den // 2, g - den // 2) if stencil else (0, g - 1)
      c = [c[0]] + [min(hi, max(lo, u)) for u in c[1:]]
    out.append(c)
  return out

def pts_of(q, den, d, rescale, dt):
  t = torch.tensor([[a[1], a[2], a[3], a[0]] for a in q], dtype=F64).view(-1, 4)
  t[:, :3] /= den
  if rescale: t[:, :3] = t[:, :3] * 2.0 ** (1 - d) - 1.0
  return t.to(dt)

def ev_interp(r, rng, i, d, ne, x, q, den, method, bc, rescale, dt):
  o = r.obj[i]
  pts = pts_of(q, den, d, rescale, dt)
  def f(ev):
    if rescale or rng.random() < .5:
      y = nn.OctreeInterp(method, ne, bc, rescale)(x, o, d, pts)
    else:
      fn = nn.octree_nearest_pts if method == 'nearest' else nn.octree_linear_pts
      y = fn(x, o, d, pts, ne, bc)
    ev['out'] = T(y, 'i' if method == 'nearest' else 'f')
  op(r, {'e': method, 'id': i, 'd': d, 'ne': ne, 'x': T(x), 'q': q, 'den': den, 'bc': bc, 'rescale': rescale}, f,
     [('data', x), ('pts', pts)])
def ev_up(r, rng, i, d, t, ne, x, method):
  o = r.obj[i]
  def f(ev):
    m = nn.OctreeUpsample(method, ne)
    if t == d + 1 and method == 'nearest' and rng.random() < .3: y = nn.octree_interp.octree_nearest_upsample(x, o, d, ne)
    elif t == d + 1 and rng.random() < .5: y = m(x, o, d)
    else: y = m(x, o, d, t)
    ev['out'] = T(y, 'f')
  op(r, {'e': 'up', 'id': i, 'd': d, 't': t, 'ne': ne, 'x': T(x), 'method': method}, f, [('data', x)])

def interp_case(method):
  def one(rng):
    r = Rec()
    i = some_octree(r, rng)
    o = r.obj[i]
    for _ in range(4):
      d = pick_depth(r, rng, i, rng.choice([0, 1]))
      ne = rng.random() < .5
      rescale = d >= 1 and rng.random() < .5
      bc = rng.random() < .6
      den = 8 if method == 'linear' else rng.choice([4, 8])
      q = qpoints(rng, r, i, d, den, rng.choice([0, 1, 24]), not bc, method == 'linear')
      x = ints(rng, rows(o, d, ne), chan(rng), 4)
      ev_interp(r, rng, i, d, ne, x, q, den, method, bc, rescale, F32)
      d = pick_depth(r, rng, i, 0)
      t = rng.choice([u for u in range(d, min(d + rng.choice([2, 2, 6]), o.depth) + 1)])
      if int(o.nnum[t]) <= 300:
        ev_up(r, rng, i, d, t, ne, ints(rng, rows(o, d, ne), chan(rng) if int(o.nnum[t]) < 100 else 2, 4), method)
    if rng.random() < .4: redo(r, rng, i)
    return r.ev
  return one
def drive_C18(tier):
  for _ in reps(tier, 100, 1100): yield interp_case('nearest')
def drive_C19(tier):
  for _ in reps(tier, 100, 1100): yield interp_case('linear')

# ------------------------------------------------------------------ C20
def ev_gnorm(r, rng, i, d, ne, x, g, inst):
  o = r.obj[i]
  C = x.shape[1]
  mod = nn.OctreeInstanceNorm(C, ne) if inst else nn.OctreeGroupNorm(C, g, ne)
  w = [rng.choice([1, 1, 2, -1, 3]) for _ in range(C)]
  b = [rng.randint(-2, 2) for _ in range(C)]
  mod = mod.to(x.dtype)
  with torch.no_grad():
    mod.weights.copy_(torch.tensor([w])); mod.bias.copy_(torch.tensor([b]))
  if rng.random() < .3: mod.eval()
  def f(ev): ev['out'] = T(mod(x, o, d), 'f')
  op(r, {'e': 'gnorm', 'id': i, 'd': d, 'ne': ne, 'x': T(x), 'g': C if inst else g, 'wt': w, 'b': b}, f,
     [('data', x), ('module', mod)])
def drive_C20(tier):
  def one(rng):
    r = Rec()
    i = some_octree(r, rng)
    o = r.obj[i]
    for _ in range(5):
      d = pick_depth(r, rng, i, 0, 200)
      ne = rng.random() < .5
      g = rng.choice([1, 2, 3]); C = g * rng.choice([1, 2, 3])
      x = ints(rng, rows(o, d, ne), C, rng.choice([1, 4]), rng.choice([F32, F64]))
      if rng.random() < .3: x = x + rng.choice([-3, 3])
      if rng.random() < .15: x = torch.ones_like(x) * 2
      if rng.random() < .3: x = x + rng.choice([-3000, -700, 700, 2000, 3000])   # mean much larger than the spread
      ev_gnorm(r, rng, i, d, ne, x, g, rng.random() < .3)
    if rng.random() < .4: redo(r, rng, i)
    return r.ev
  def uneven(rng):            # batch elements of very different sizes
    r = Rec()
    depth, full = rng.choice([(3, 0), (3, 1), (4, 0)])
    bs = rng.choice([2, 3])
    big = rng.randrange(bs)
    pts = [p for b in range(bs) for p in [[b] + q[1:] for q in cloud(rng, depth, 90 if b == big else 1, 1, 'uniform')]]
    i = r.build(pts, depth, full, bs); r.cneighs(i)
    for ne in (True, False):
      d = rng.choice([depth, depth - 1])
      g = rng.choice([1, 2]); x = ints(rng, rows(r.obj[i], d, ne), 2, 4, rng.choice([F32, F64]))
      ev_gnorm(r, rng, i, d, ne, x, g, rng.random() < .4)
    return r.ev
  for _ in reps(tier, 6, 80): yield uneven
  for _ in reps(tier, 80, 900): yield one

# ------------------------------------------------------------------ C21
def drive_C21(tier):
  def one(rng):
    r = Rec()
    i = some_octree(r, rng)
    o = r.obj[i]
    for _ in range(7):
      d = pick_depth(r, rng, i, 0)
      ne = rng.random() < .5
      kn, kd = rng.choice([(1, 2), (3, 4), (1, 4), (1, 1), (0, 1), (1, 2), (1, 16), (1, 32)])
      x = ints(rng, rows(o, d, ne), rng.randint(1, 3), 4, rng.choice([F32, F64]))
      mod = nn.OctreeDropPath(1 - kn / kd, ne, rng.random() < .6)
      train = rng.random() < .8
      mod.train(train)
      bid = None
      if rng.random() < .3:
        bid = torch.tensor([rng.randrange(o.batch_size) for _ in range(x.shape[0])], dtype=torch.int64)
      def f(ev, mod=mod, x=x, d=d, bid=bid, most=14 if kd > 4 else 1):
        for _ in range(most):                # rarely kept: look until something is
          y = mod(x, o, d, bid) if bid is not None else mod(x, o, d)
          if bool((y != 0).any()): break
        ev['out'] = T(y, 'f')
      op(r, {'e': 'drop', 'id': i, 'd': d, 'ne': ne, 'x': T(x), 'kn': kn, 'kd': kd, 'scale': mod.scale_by_keep,
             'train': train, 'bid': [] if bid is None else bid.tolist()}, f, [('data', x)])
    if rng.random() < .4: redo(r, rng, i)
    return r.ev
  def stat(rng):
    r = Rec()
    bs = rng.choice([1, 2, 3, 4])
    depth = 2
    pts = cloud(rng, depth, 6, bs) + [[b, 0, 0, 0] for b in range(bs)]
    i = r.build(pts, depth, 1, bs)
    o = r.obj[i]
    for kn, kd in [(1, 2), (3, 4), (1, 4)]:
      ne = rng.random() < .5
      mod = nn.OctreeDropPath(1 - kn / kd, ne, rng.random() < .5)
      n = 240
      x = torch.ones(rows(o, depth, ne), 1)
      b = o.batch_id(depth, ne)
      def f(ev):
        out = []
        for _ in range(n):
          y = mod(x, o, depth)
          out.append([int(bool((y[b == s] != 0).all())) for s in range(bs)])
        ev['runs'] = out
      op(r, {'e': 'dropstat', 'id': i, 'kn': kn, 'kd': kd}, f, [('data', x)])
    return r.ev
  for _ in reps(tier, 80, 900): yield one
  for _ in reps(tier, 6, 30): yield stat

# ------------------------------------------------------------------ C31
def FT(t):
  p = T(t.reshape(-1)); p['sh'] = list(t.shape); return p
def drive_C31(tier):
  def scat(rng):
    r = Rec()
    for _ in range(6):
      nd = rng.randint(1, 4)
      sh = [rng.randint(1, 4) for _ in range(nd)]
      dim = rng.randrange(nd)
      if rng.random() < .1: sh[dim] = 0
      dt = rng.choice([F32, F64, torch.int64])
      src = itens(rng, tuple(sh), 5, dt)
      size = rng.randint(1, 6)
      kind = rng.choice(['1d', '1d', 'same', 'lead'])
      if kind == '1d': ish = [sh[dim]]
      elif kind == 'same' or dim > 1: ish = list(sh)
      else: ish = sh[:max(2, dim + 1)] if nd >= 2 else list(sh)
      n = 1
      for s in ish: n *= s
      index = torch.tensor([rng.randrange(size) for _ in range(n)], dtype=torch.int64).view(ish)
      mode = rng.choice(['auto', 'size', 'out'])
      sdim = dim - nd if rng.random() < .5 else dim
      into = None
      if mode == 'auto': osize = int(index.max()) + 1 if n else 0
      elif mode == 'size': osize = size + rng.randint(0, 2)
      else:
        osize = size + rng.randint(0, 2)
        s2 = list(sh); s2[dim] = osize
        into = itens(rng, tuple(s2), 5, dt)
      ev = {'e': 'scatter', 'src': FT(src), 'index': FT(index), 'dim': sdim, 'osize': osize, 'given': into is not None,
            'into': FT(into) if into is not None else {'k': 'none'}, 'after': {'k': 'none'}}
      def f(ev):
        if mode == 'auto': y = scatter_add(src, index, sdim) if not (sdim == -1 and rng.random() < .5) else scatter_add(src, index)
        elif mode == 'size': y = scatter_add(src, index, dim=sdim, dim_size=osize)
        else: y = scatter_add(src, index, sdim, out=into); ev['after'] = FT(into)
        ev['out'] = FT(y)
      op(r, ev, f, [('src', src), ('index', index)])
    for _ in range(5):
      nd = rng.randint(1, 4)
      sh = [rng.randint(1, 4) for _ in range(nd)]
      dim = rng.randrange(-nd, nd)
      x = itens(rng, tuple(sh), 9, rng.choice([F32, torch.int64, torch.int32, torch.bool, torch.uint8]) if rng.random() < .5 else F32)
      excl = rng.random() < .6
      def f(ev): ev['out'] = FT(cumsum(x, dim, excl))
      op(r, {'e': 'cumsum', 'x': FT(x), 'dim': dim, 'excl': excl}, f, [('data', x)])
    for _ in range(2):
      lo = rng.randint(-3, 1); hi = lo + rng.randint(0, 3)
      def f(ev): ev['out'] = T(range_grid(lo, hi))
      op(r, {'e': 'grid', 'lo': lo, 'hi': hi}, f, [])
      num = rng.choice([3, 3, 2, 5])
      xs = [rng.randint(1, 12) for _ in range(rng.randint(1, num))]
      def f(ev):
        out = resize_with_last_val(list(xs), num) if num != 3 else resize_with_last_val(list(xs))
        ev['out'] = list(out)
        s = list2str(out)
        ev['str'] = split_digits(s, out)
      op(r, {'e': 'resize', 'x': xs, 'num': num}, f, [])
      a = [rng.randint(-20, 20) for _ in range(12)]; b = [rng.choice([-7, -3, -1, 1, 2, 5, 8]) for _ in range(12)]
      def f(ev): ev['out'] = T(trunc_div(torch.tensor(a), torch.tensor(b)))
      op(r, {'e': 'tdiv', 'a': a, 'b': b}, f, [])
    sh = [rng.choice([3, 9, 27]), rng.randint(2, 8), rng.randint(2, 8)]
    def f(ev):
      w = torch.empty(sh); ocnn.utils.xavier_uniform_(w)
      ev['mx'] = int(round(float(w.abs().max()) * 4096)) if w.numel() > 60 else int(4096 * (4.0 / (sh[0] * (sh[1] + sh[2]))) ** .5)
    op(r, {'e': 'xavier', 'sh': sh}, f, [])
    return r.ev
  def long(rng):              # thousands of rows, few targets / many targets
    r = Rec()
    n = rng.choice([4097, 5000, 6000])
    size = rng.choice([1, 3, 40, 300])
    src = itens(rng, (n,) if rng.random() < .5 else (n, 1), 5, rng.choice([F32, torch.int64]))
    index = torch.tensor([rng.randrange(size) for _ in range(n)])
    osize = int(index.max()) + 1
    mode = rng.choice(['auto', 'auto', 'size'])
    if mode == 'size': osize = size + rng.randint(0, 2)
    def f(ev): ev['out'] = FT(scatter_add(src, index, 0) if mode == 'auto' else scatter_add(src, index, 0, dim_size=osize))
    op(r, {'e': 'scatter', 'src': FT(src), 'index': FT(index), 'dim': 0, 'osize': osize, 'given': False,
           'into': {'k': 'none'}, 'after': {'k': 'none'}}, f, [('src', src), ('index', index)])
    x = itens(rng, (n,), 2, F32)
    def f(ev): ev['out'] = FT(cumsum(x, 0, True))
    op(r, {'e': 'cumsum', 'x': FT(x), 'dim': 0, 'excl': True}, f, [('data', x)])
    return r.ev
  for _ in reps(tier, 4, 20): yield long
  for _ in reps(tier, 120, 1500): yield scat

def split_digits(s, out):
  """cut the string into the decimal forms of the list entries, as far as it matches"""
  res, p = [], 0
  for v in out:
    n = len(str(v)); res.append(s[p:p + n]); p += n
  if p != len(s): res.append(s[p:])
  return res
