"""Drivers for blocks, networks, decoders, batch and history independence (C22, C23, C27, C29)."""
import math, copy
import torch, ocnn
import torch.nn.functional as F
import torch.utils.checkpoint
from rec import Rec, T, dig
from gen import *
from drv_struct import reps, grow_random
from drv_ops import some_octree, pick_depth, ints, itens, rows, KL, pts_of, qpoints
import ocnn.nn as nn
import ocnn.modules as om
from ocnn.octree import Octree, Points, merge_octrees

F32 = torch.float32
NO = {'k': 'none'}
def call(r, ev, fn, args=(), writes=()): return r.call(ev, fn, writes=writes, args=args, m='net')

# ---------------------------------------------------------------- fixed point with a common unit
def unit_of(*ts):
  m = 0.
  for t in ts:
    if isinstance(t, torch.Tensor) and t.numel():
      t = t.detach().double(); t = t[torch.isfinite(t)]
      if t.numel(): m = max(m, float(t.abs().max()))
  return 2.0 ** (20 - math.ceil(math.log2(m))) if m > 1e-30 else 2.0 ** 20
TOL = 120                   # of 2^20: about 1e-4 relative to the largest value
def FTf(t, sc, cap=600):
  if t is None: return NO
  t = t.detach()
  f = t.reshape(-1).double()
  if f.numel() > cap:
    st = (f.numel() + cap - 1) // cap
    f = torch.cat([f[::st], f[-20:]])
  p = T(f, 'f', sc); p['sh'] = list(t.shape)
  return p

# ---------------------------------------------------------------- blocks (C29), exact on integers
def rnd_par(rng, mod):
  """small integer parameters, batch norm with unit variance"""
  with torch.no_grad():
    for m in mod.modules():
      if isinstance(m, torch.nn.BatchNorm1d):
        n = m.num_features
        m.running_mean.copy_(itens(rng, (n,), 2)); m.running_var.fill_(1 - m.eps)
        m.weight.copy_(torch.tensor([float(rng.choice([1, 1, -1, 2])) for _ in range(n)])); m.bias.copy_(itens(rng, (n,), 3))
      elif isinstance(m, torch.nn.Linear):
        m.weight.copy_(itens(rng, tuple(m.weight.shape), 1))
        if m.bias is not None: m.bias.copy_(itens(rng, tuple(m.bias.shape), 3))
      elif hasattr(m, 'weights') and isinstance(m.weights, torch.nn.Parameter):
        m.weights.copy_(itens(rng, tuple(m.weights.shape), 1))
def par_of(mod, pre='b'):
  out = {}
  for n, m in mod.named_modules():
    p = pre + ('.' + n if n else '')
    if isinstance(m, torch.nn.BatchNorm1d):
      out[p] = {'m': T(m.running_mean)['v'], 'g': T(m.weight)['v'], 'b': T(m.bias)['v']}
    elif isinstance(m, torch.nn.Linear):
      out[p] = {'w': T(m.weight)['v'], 'b': [] if m.bias is None else T(m.bias)['v']}
    elif isinstance(m, nn.OctreeConv):
      dec = isinstance(m, nn.OctreeDeconv)
      out[p] = {'w': T(m.weights)['v'], 'ci': int(m.in_channels), 'co': int(m.out_channels)}
  return out

def ev_blk(r, rng, i, kind, ne):
  o = r.obj[i]
  ci, co = rng.randint(1, 3), rng.randint(1, 3)
  d = pick_depth(r, rng, i, 1, 90)
  ev = {'e': 'blk', 'id': i, 'kind': kind, 'd': d, 'ne': ne, 'stride': 1, 'kernel': '333', 'num': 1, 'sub': 1}
  oct_arg = True
  nin = rows(o, d, ne)
  if kind in ('res', 'res2'):
    s = rng.choice([1, 2])
    if s == 2 and (d < 2 or (ne and not live_parents(o, d))): s = 1
    bn = rng.choice([1, 2])
    co = bn * rng.choice([1, 2]); ci = co if rng.random() < .5 else rng.randint(1, 3)
    mod = (om.OctreeResBlock if kind == 'res' else om.OctreeResBlock2)(ci, co, s, bn, ne)
    ev['stride'] = s
  elif kind == 'blocks':
    sub, num, bn = rng.choice([1, 2]), rng.choice([1, 2, 2, 3, 5]), rng.choice([1, 2])
    co = 2; ci = rng.choice([1, 2])
    mod = om.OctreeResBlocks(ci, co, num, bn, ne, om.OctreeResBlock if sub == 1 else om.OctreeResBlock2, use_checkpoint=rng.random() < .5)
    ev['num'], ev['sub'] = num, sub
  elif kind in ('cb', 'cbr', 'dbr'):
    k, s = rng.choice(KERNELS), rng.choice([1, 2])
    cls = {'cb': om.OctreeConvBn, 'cbr': om.OctreeConvBnRelu, 'dbr': om.OctreeDeconvBnRelu}[kind]
    if kind == 'dbr' and s == 2:
      d = d - 1; ev['d'] = d; nin = rows(o, d, ne)
    mod = cls(ci, co, list(KL[k][0]), s, ne)
    ev['kernel'], ev['stride'] = k, s
  elif kind == 'lb': mod = om.Conv1x1Bn(ci, co); oct_arg = False
  elif kind == 'lbr': mod = om.Conv1x1BnRelu(ci, co); oct_arg = False
  elif kind == 'l': mod = om.Conv1x1(ci, co, use_bias=rng.random() < .5); oct_arg = False
  else: mod = om.FcBnRelu(ci, co); oct_arg = False
  rnd_par(rng, mod); mod.eval()
  x = ints(rng, nin, ci, 2)
  ev.update({'ci': ci, 'co': co, 'x': T(x), 'par': par_of(mod)})
  def f(ev):
    with torch.no_grad() if rng.random() < .5 else torch.enable_grad():
      ev['out'] = T(mod(x, o, ev['d']) if oct_arg else mod(x), 'f', 1)
  call(r, ev, f, [('data', x), ('module', mod)])

def live_parents(o, d):
  """every non-empty parent has a non-empty child (max pooling is defined on non-empty features)"""
  ch = o.children[d].view(-1, 8)
  return bool((ch >= 0).any(1).all())

def ev_ckpt(r, rng, i):
  """checkpointing changes neither outputs nor gradients"""
  o = r.obj[i]
  ne = rng.random() < .5
  d = pick_depth(r, rng, i, 1, 90)
  ci, co, n = rng.choice([2, 4]), 4, rng.choice([1, 2, 3, 4, 5, 6])
  what = rng.choice(['blocks', 'conv'])
  sub = rng.choice([om.OctreeResBlock, om.OctreeResBlock2])
  s = rng.randrange(10 ** 6)
  x0 = ints(rng, rows(o, d, ne), ci, 3)
  train = rng.random() < .5 and x0.shape[0] > 1
  rx = what == 'blocks' or rng.random() < .5
  def run(ck):
    torch.manual_seed(s)
    if what == 'blocks': m = om.OctreeResBlocks(ci, co, n, 2, ne, sub, use_checkpoint=ck)
    else: m = nn.OctreeConv(ci, co, nempty=ne, use_bias=True)
    m.train(train)
    x = x0.clone().requires_grad_(rx)
    if what == 'blocks': y = m(x, o, d)
    elif ck: y = om.modules.ckpt_conv_wrapper(lambda a, b: m(a, b, d), x, o) if hasattr(om, 'modules') else om.ckpt_conv_wrapper(lambda a, b: m(a, b, d), x, o)
    else: y = m(x, o, d)
    g = torch.linspace(-1, 1, y.numel()).view_as(y)
    (y * g).sum().backward()
    return [y, x.grad] + [p.grad for p in m.parameters()]
  ev = {'e': 'same', 'what': 'checkpoint', 'tol': TOL}
  def f(ev):
    a, b = run(False), run(True)
    us = [unit_of(*[z for z in q if z is not None]) for q in zip(a, b)]
    ev['a'] = [FTf(t, u) for t, u in zip(a, us)]; ev['b'] = [FTf(t, u) for t, u in zip(b, us)]
  call(r, ev, f)

def drive_C29(tier):
  def one(kind):
    def f(rng):
      r = Rec()
      i = some_octree(r, rng)
      for _ in range(3): ev_blk(r, rng, i, kind, rng.random() < .5)
      return r.ev
    return f
  def ck(rng):
    r = Rec()
    i = some_octree(r, rng)
    for _ in range(3): ev_ckpt(r, rng, i)
    return r.ev
  for k in ['res', 'res', 'res2', 'res2', 'blocks', 'cb', 'cbr', 'dbr']:
    for _ in reps(tier, 7, 90): yield one(k)
  for k in ['lb', 'lbr', 'l', 'fc']:
    for _ in reps(tier, 2, 15): yield one(k)
  for _ in reps(tier, 12, 150): yield ck

# ---------------------------------------------------------------- networks: TLC-generated programs
def rnd_bn(mod, seed=None):
  """random statistics and affine parameters, so that every layer matters in evaluation mode"""
  if seed is not None: torch.manual_seed(seed)
  with torch.no_grad():
    for m in mod.modules():
      if isinstance(m, (torch.nn.BatchNorm1d, torch.nn.BatchNorm2d)):
        m.running_mean.normal_(0, .2); m.running_var.uniform_(.5, 1.5); m.weight.uniform_(.6, 1.4); m.bias.normal_(0, .2)

class UNetV(ocnn.models.UNet):
  cfg = None
  def config_network(self):
    u = self.cfg
    self.encoder_channel = list(u['c']); self.decoder_channel = list(u['dc'])
    self.encoder_blocks = list(u['eb']); self.decoder_blocks = list(u['db'])
    self.head_channel = u['hd']; self.bottleneck = u['bn']
    self.resblk = om.OctreeResBlock2 if u['kind'] == 2 else om.OctreeResBlock

def make_net(c, u, cin, cout):
  a = c['arch']
  if a == 'resnet': m = ocnn.models.ResNet(cin, cout, c['r'], c['st'], c['ne'])
  elif a == 'lenet': m = ocnn.models.LeNet(cin, cout, c['st'], c['ne'])
  elif a == 'hrnet': m = ocnn.models.HRNet(cin, cout, c['st'], nempty=c['ne'])
  elif a == 'segnet': m = ocnn.models.SegNet(cin, cout, c['st'], c['m'], c['ne'])
  elif a == 'unet':
    if c['v'] == 0: m = ocnn.models.UNet(cin, cout, c['m'], c['ne'])
    else:
      UNetV.cfg = u
      m = UNetV(cin, cout, c['m'], c['ne'])
  elif a == 'ae': m = ocnn.models.AutoEncoder(cin, cout, c['D'], c['F'], 'NDF'[:0] + 'ND', code_channel=c.get('code', 16))
  elif a == 'ounet':
    from ocnn.models.ounet import OUNet
    m = OUNet(cin, cout, c['D'], c['F'], 'ND')
  else:
    from ocnn.models.image2shape import Image2Shape
    m = Image2Shape(cout, c['D'], c['F'], code_channel=8)
  rnd_bn(m)
  return m.eval()

def interp(plan, sd, env, o, oo, ne):
  """executes a program with the layer operators of the library"""
  for q in plan:
    oc = oo if q['n'] == 'out' else o
    op, y, d, p = q['o'], q['y'], q['d'], q['p']
    x = [env[k] for k in q['x']]
    if op == 'id': v = x[0]
    elif op == 'relu': v = torch.relu(x[0])
    elif op == 'tanh': v = torch.tanh(x[0])
    elif op == 'add':
      v = x[0]
      for t in x[1:]: v = v + t
    elif op == 'cat': v = torch.cat(x, 1)
    elif op == 'flatten': v = x[0].flatten(1)
    elif op == 'lin': v = F.linear(x[0], sd[p + '.weight'], sd.get(p + '.bias'))
    elif op == 'bn': v = F.batch_norm(x[0], sd[p + '.running_mean'], sd[p + '.running_var'], sd[p + '.weight'], sd[p + '.bias'], False, 0., 1e-5)
    elif op in ('conv', 'deconv'):
      w = sd[p + '.weights']; ks = [int(z) for z in q['k']]
      if op == 'conv': m = nn.OctreeConv(w.shape[1], w.shape[2], ks, q['s'], ne)
      else: m = nn.OctreeDeconv(w.shape[2], w.shape[1], ks, q['s'], ne)
      m.weights.data = w
      v = m(x[0], oc, d)
    elif op == 'maxpool': v = nn.octree_max_pool(x[0], oc, d, ne)
    elif op == 'maxpoolidx': v, env[y + '!'] = nn.octree_max_pool(x[0], oc, d, ne, True)
    elif op == 'unpool': v = nn.octree_max_unpool(x[0], x[1], oc, d, ne)
    elif op == 'gpool': v = nn.octree_global_pool(x[0], oc, d, ne)
    elif op == 'upsample': v = nn.octree_interp.octree_nearest_upsample(x[0], oc, d, ne)
    elif op == 'voxel': v = nn.octree2voxel(x[0], oc, d, ne)
    elif op == 'interp': v = nn.OctreeInterp(q['n'], ne)(x[0], oc, d, env['pts'])
    elif op == 'align': v = nn.octree_align(x[0], o, oo, d)
    elif op == 'depad': v = nn.octree_depad(x[0], oc, d)
    else: raise RuntimeError(op)
    env[y] = v
  return env

def net_octree(r, rng, D, full, ne, need_nrm=False, nmax=5):
  """one or two merged shapes"""
  ids = []
  for _ in range(rng.choice([1, 2])):
    n = rng.randint(2, nmax)
    ids.append(r.build(cloud(rng, D, n, 1, rng.choice(['uniform', 'cluster', 'center', 'mixed'])), D, full, 1, normals(rng, n, 'axis'), feats(rng, n, 2)))
  i = r.merge(ids)
  r.cneighs(i)
  return i

def query_pts(rng, o, n):
  """query points, most of them inside or right beside an occupied finest cell"""
  D = o.depth
  x, y, z, b = o.xyzb(D, True)
  k = [rng.randrange(len(x)) for _ in range(n)]
  def one(i):
    if rng.random() < .2: return [rng.uniform(-.95, .95) for _ in range(3)] + [rng.randrange(o.batch_size)]
    w = rng.choice([(.05, .95), (-.45, 1.45)])
    c = [float(v[i]) + rng.uniform(*w) for v in (x, y, z)]
    return [min(.95, max(-.95, q * 2 ** (1 - D) - 1)) for q in c] + [float(b[i])]
  return torch.tensor([one(i) for i in k], dtype=F32)

def replay_net(prog):
  import random
  c, u, plan = prog['cfg'], prog['u'], prog['plan']
  rng = random.Random(repr(sorted(c.items())) + str(prog['rep']) + __import__('os').environ.get('VERIF_SEED', '1'))
  torch.manual_seed(rng.randrange(10 ** 6))
  r = Rec()
  D, ne, a = c['D'], c['ne'], c['arch']
  cin = 4 if a in ('ae', 'ounet') else rng.choice([3, 4])
  cout = rng.choice([2, 5, 10])
  i = net_octree(r, rng, D, c['F'], ne)
  o = r.obj[i]
  dec = a in ('ae', 'ounet', 'i2s')
  net = make_net(c, u, cin, cout)
  sd = {k: v for k, v in net.state_dict().items()}
  ev = {'e': 'nparam', 'ci': cin, 'co': cout, 'want': prog['par'], 'got': []}
  def par(ev): ev['got'] = [[k, list(p.shape)] for k, p in net.named_parameters() if not k.startswith('resnet18.')]
  call(r, ev, par, [('network', net)])
  if dec: cout = net.channel_out
  x = torch.randn(rows(o, D, ne), cin)
  pts = query_pts(rng, o, rng.randint(3, 30))
  ev = {'e': 'net', 'cfg': c, 'id': i, 'co': cout, 'np': len(pts), 'tol': TOL, 'out': [], 'ref': []}
  def fin(ev, outs, refs):
    for p, q in zip(outs, refs):
      un = unit_of(p, q); ev['out'].append(FTf(p, un)); ev['ref'].append(FTf(q, un))
  def f(ev):
    with torch.no_grad():
      env = {'in': x.clone(), 'pts': pts.clone()}
      oo = o
      if not dec:
        out = [net(x, o, D, pts) if a in ('segnet', 'unet') else net(x, o, D)]
      else:
        if a == 'ae':
          env['in'] = o.get_input_feature('ND'); z = net(o, False)
        elif a == 'ounet':
          env['in'] = o.get_input_feature('ND')
          oo = r.obj[j]; ev['id'] = j
          z = net(o, oo, False)
        else:
          oo = r.obj[i]
          code = torch.randn(o.batch_size * 8 ** c['F'], 8)
          env['code'] = code
          z = net.decoder(code, o, False)
        out = [z['logits'][d] for d in sorted(z['logits'])] + [z['signal']]
      env = interp(plan, sd, env, o, oo, ne)
      fin(ev, out, [env[k] for k in prog['outs']])
  if a == 'ounet':
    bs = o.batch_size
    j = r.build(cloud(rng, D, rng.randint(2, 6), bs, 'mixed'), D, c['F'], bs)
    r.cneighs(j)
    ev['id'] = j
  call(r, ev, f, [('data', x), ('pts', pts), ('network', net)])
  # a training step runs
  if rng.random() < .3 and not dec and a != 'hrnet' and o.batch_size > 1:
    ev = {'e': 'same', 'what': 'train_step', 'tol': 0}
    def g(ev):
      net.train()
      y = net(x, o, D, pts) if a in ('segnet', 'unet') else net(x, o, D)
      y.sum().backward()
      fin_ = [p.grad is not None and bool(torch.isfinite(p.grad).all()) for p in net.parameters()]
      ev['a'] = [T(torch.tensor(fin_))]; ev['b'] = [T(torch.ones(len(fin_), dtype=torch.bool))]
    call(r, ev, g, [('data', x), ('pts', pts)])
  return r.ev

# ---------------------------------------------------------------- decoders (C27)
ONE = 1 << 14
def ev_dec(r, rng, i, z, upd, depth, full, bs, co, o, stored0):
  pass

def drive_C27(tier):
  def one(arch, upd):
    def f(rng):
      r = Rec()
      D, fl = rng.choice([(2, 1), (3, 1), (3, 2), (4, 2), (4, 1), (2, 2)])
      c = {'arch': arch, 'D': D, 'F': fl, 'code': rng.choice([4, 8, -1])}
      co = rng.choice([3, 4])
      torch.manual_seed(rng.randrange(10 ** 6))
      net = make_net(c, None, 4, co)
      bs = rng.choice([1, 2])
      net.train(rng.random() < .25 and (arch != 'i2s' or bs > 1))
      # diversify the predicted labels
      with torch.no_grad():
        for p in net.predict:
          l = p[1].linear
          l.weight.mul_(6); l.bias.copy_(torch.tensor([rng.choice([0., .5, 1.5, 4., 60.]), rng.choice([0., 0., .5])]))
        for d in range(fl, D + 1): pass
      oi = None
      if arch in ('ae', 'ounet') or not upd:
        ids = []
        for _ in range(bs):
          n = rng.randint(1, 5); ids.append(r.build(cloud(rng, D, n), D, fl, 1, normals(rng, n, 'axis'), None))
        oi = r.merge(ids); r.cneighs(oi)
      img = torch.randn(bs, 3, 64, 64)
      code = torch.randn(bs * 8 ** fl, getattr(net, 'code_channel', 8) if arch != 'ounet' else 1) * 1.5
      st = torch.get_rng_state()
      how = rng.choice(['forward', 'code']) if arch in ('ae', 'i2s') and upd else 'forward'
      j = r.new_id() if upd else oi
      oz = None
      mode, given = rng.choice([0, 1, 2]), [None]
      if arch == 'ounet' and not upd:        # decode on another given octree
        oz = r.build(cloud(rng, D, rng.randint(1, 6), bs), D, fl, bs); r.cneighs(oz); j = oz
      def run():
        if arch == 'ae': return net.decode_code(code) if how == 'code' else net(r.obj[oi], upd)
        if arch == 'i2s':
          if how == 'code': return net.decode_code(code)
          return net(img, None, True) if upd else net(img, r.obj[oi], False)
        if upd:
          if mode == 0: return net(r.obj[oi])
          if mode == 1: return net(r.obj[oi], None, True)
          given[0] = net.init_octree(r.obj[oi])        # the caller's octree is the one that is grown
          return net(r.obj[oi], given[0], True)
        return net(r.obj[oi], r.obj[oz], False)
      # keep the growth within reach: bias the classifier until the octree is small
      def small():
        s0 = copy.deepcopy(net.state_dict())
        for k in range(12):
          with torch.no_grad():
            oo = run()['octree_out']
          net.load_state_dict(s0)
          if int(oo.nnum.max()) <= 700: return True
          with torch.no_grad():
            for p in net.predict: p[1].linear.bias[0] += .8 * (k + 1)
          s0 = copy.deepcopy(net.state_dict())
        return False
      if upd and not small(): return []
      o0 = r.obj.get(j)
      stored0 = T(o0.features[D], 'f', ONE) if not upd else NO
      ev = {'e': 'dec', 'arch': arch, 'id': j, 'upd': upd, 'depth': D, 'full': fl, 'bs': bs, 'co': co, 'one': ONE, 'nbini': True, 'stored0': stored0, 'given': True}
      keep = {}
      def f(ev):
        with torch.no_grad(): z = run()
        o = z['octree_out']
        if upd and given[0] is not None: ev['given'] = o is given[0]
        if not upd: ev['given'] = o is r.obj[j]
        r.obj[j] = o; keep.update(z)
        lg = [z['logits'][d] for d in sorted(z['logits'])]
        ev['logits'] = [T(l, 'f', 2 ** 18 / max(1., float(l.abs().max()))) for l in lg]
        ev['head'] = r.head(o); ev['snap'] = r.snap(o)
        ev['signal'] = T(z['signal'], 'f', ONE); ev['stored'] = T(o.features[D], 'f', ONE)
      a = [('code', code), ('image', img)] + ([] if net.training else [('network', net)])
      call(r, ev, f, a, writes=[j] if upd else [])
      if ev['err']: return r.ev
      # use the decoded octree, and decode again on it without update
      if upd:
        for _ in range(2):
          d = rng.randint(1, D); r.neigh(j, d, rng.choice(KERNELS), 1, rng.random() < .5)
        r.layer(j, rng.randint(0, D), True)
        if arch == 'i2s' and how == 'forward' and not net.training:      # the image's code, node after node
          ev = {'e': 'same', 'what': 'decode.image_vs_code', 'tol': TOL}
          def g2(ev):
            with torch.no_grad(): z2 = net.decode_code(net.resnet18(img).reshape(-1, net.code_channel))
            A = [keep['logits'][d] for d in sorted(keep['logits'])] + [keep['signal']]
            B = [z2['logits'][d] for d in sorted(z2['logits'])] + [z2['signal']]
            us = [unit_of(p, q) for p, q in zip(A, B)]
            ev['a'] = [FTf(t, q) for t, q in zip(A, us)]; ev['b'] = [FTf(t, q) for t, q in zip(B, us)]
          call(r, ev, g2)
        if not net.training and how == 'code' or (arch == 'ounet' and not net.training):
          ev = {'e': 'same', 'what': 'decode.update_vs_given', 'tol': TOL}
          def g(ev):
            with torch.no_grad():
              if arch == 'ounet': z2 = net(r.obj[oi], r.obj[j], False)
              else: z2 = net.decoder(code, r.obj[j], False)
            A = [keep['logits'][d] for d in sorted(keep['logits'])] + [keep['signal']]
            B = [z2['logits'][d] for d in sorted(z2['logits'])] + [z2['signal']]
            us = [unit_of(p, q) for p, q in zip(A, B)]
            ev['a'] = [FTf(t, q) for t, q in zip(A, us)]; ev['b'] = [FTf(t, q) for t, q in zip(B, us)]
          call(r, ev, g)
      return r.ev
    return f
  for a in ('ae', 'ounet', 'i2s'):
    for _ in reps(tier, 13, 200): yield one(a, True)
    for _ in reps(tier, 5, 70): yield one(a, False)

# ---------------------------------------------------------------- C23
def mat(t, sc):
  t = t.detach()
  if t.dim() > 2: t = t.flatten(1)
  return T(t, 'f', sc)

def batch_ops(rng):
  """(name, kind, fn(octree, x, d) -> tensor, input rows at (d), output depth shift, ne)"""

def drive_C23(tier):
  def mk(r, rng, D, full, B, nmax=5):
    ids = []
    pts = []
    huge = rng.randrange(B) if nmax == 5 and D <= 4 and rng.random() < .2 else -1       # one much larger sample
    for q_ in range(B):
      n = rng.randint(1, nmax)
      if huge >= 0: n = 150 if q_ == huge else 1
      p = cloud(rng, D, n, 1)
      nr, ft = normals(rng, n), feats(rng, n, 2)
      pts.append((p, nr, ft)); ids.append(r.build(p, D, full, 1, nr, ft)); r.cneighs(ids[-1])
    j = r.merge(ids); r.cneighs(j)
    return ids, j, pts
  def emit(r, opn, kind, j, d, ne, outs, out, fn, rowsl=None, tol=TOL):
    ev = {'e': 'batch', 'op': opn, 'kind': kind, 'id': j, 'd': d, 'ne': ne, 'rows': rowsl or [], 'tol': tol}
    def f(ev):
      a, b = fn()
      sc = unit_of(b, *a)
      ev['outs'] = [mat(t, sc) for t in a]; ev['out'] = mat(b, sc)
    call(r, ev, f)
  def cat_by(o, d, ne, xs):
    """feature of the merged octree: rows of sample s from xs[s]"""
    b = o.batch_id(d, ne)
    out = torch.zeros(len(b), xs[0].shape[1], dtype=xs[0].dtype)
    for s, x in enumerate(xs): out[b == s] = x
    return out
  def ops(rng):
    r = Rec()
    D, full = rng.choice([(2, 0), (2, 1), (3, 1), (3, 2), (4, 2), (4, 1), (5, 2)])
    ids, j, _ = mk(r, rng, D, full, rng.choice([2, 2, 3]))
    os_, om_ = [r.obj[k] for k in ids], r.obj[j]
    for _ in range(6):
      C = rng.choice([1, 2, 4])
      ne = rng.random() < .5
      opn = rng.choice(['conv', 'deconv', 'dwconv', 'gconv', 'maxpool', 'avgpool', 'gpool', 'unpool', 'gnorm', 'inorm', 'col', 'pad', 'depad', 'voxel', 'up', 'nearest', 'linear', 'feat', 'block', 'dropeval'])
      lim = 900 if opn in ('gnorm', 'inorm') else 200
      ds = [d for d in range(1, D + 1) if int(om_.nnum[d]) <= lim] or [1]
      d = rng.choice(ds)
      od, one_, kind = d, ne, 'rows'
      k, s = rng.choice(KERNELS), rng.choice([1, 2])
      ks = list(KL[k][0])
      if opn == 'conv': m = nn.OctreeConv(C, 3, ks, s, ne, use_bias=rng.random() < .5); fn = lambda x, o, q: m(x, o, d); od = d - s + 1
      elif opn == 'deconv':
        if s == 2: d = d - 1
        m = nn.OctreeDeconv(C, 3, ks, s, ne); fn = lambda x, o, q: m(x, o, d); od = d + s - 1
      elif opn == 'dwconv': m = nn.OctreeDWConv(C, ks, s, ne); fn = lambda x, o, q: m(x, o, d); od = d - s + 1
      elif opn == 'gconv': C = 4; m = nn.OctreeGroupConv(4, 4, ks, s, ne, group=2); fn = lambda x, o, q: m(x, o, d); od = d - s + 1
      elif opn == 'block':
        m = rng.choice([om.OctreeResBlock, om.OctreeResBlock2])(C, 4, 1, 2, ne); rnd_bn(m); m.eval(); fn = lambda x, o, q: m(x, o, d)
      elif opn == 'maxpool':
        if ne and not live_parents(om_, d): continue
        fn = lambda x, o, q: nn.octree_max_pool(x, o, d, ne); od = d - 1
      elif opn == 'unpool':
        if ne and not live_parents(om_, d): continue
        def fn(x, o, q):
          y, ix = nn.octree_max_pool(x, o, d, ne, True)
          return nn.octree_max_unpool(y, ix, o, d - 1, ne)
      elif opn == 'avgpool': fn = lambda x, o, q: nn.octree_avg_pool(x, o, d, k, s, ne); od = d - s + 1
      elif opn == 'gpool': fn = lambda x, o, q: nn.octree_global_pool(x, o, d, ne); kind = 'batch'
      elif opn in ('gnorm', 'inorm'):
        C = 4; m = nn.OctreeGroupNorm(4, 2, ne) if opn == 'gnorm' else nn.OctreeInstanceNorm(4, ne)
        with torch.no_grad(): m.weights.uniform_(.5, 1.5); m.bias.normal_()
        if opn == 'inorm' and ne: d = od = D if int(om_.nnum[D]) <= 900 else d
        fn = lambda x, o, q: m(x, o, d)
      elif opn == 'col':
        fn = lambda x, o, q: nn.octree2col(x, o, d, k, 1, ne)
      elif opn == 'pad': ne = True; one_ = False; fn = lambda x, o, q: nn.octree_pad(x, o, d, 2.)
      elif opn == 'depad': ne = False; one_ = True; fn = lambda x, o, q: nn.octree_depad(x, o, d)
      elif opn == 'voxel':
        d = od = min(d, 2); kind = 'batch'; fn = lambda x, o, q: nn.octree2voxel(x, o, d, ne)
      elif opn == 'up':
        t = min(D, d + rng.choice([1, 2])); od = t
        if t == d: continue
        m = nn.OctreeUpsample(rng.choice(['nearest', 'linear']), ne); fn = lambda x, o, q: m(x, o, d, t)
      elif opn in ('nearest', 'linear'):
        kind = 'pts'
        bc = rng.random() < .5
        m = nn.OctreeInterp(opn, ne, bc); fn = lambda x, o, q: m(x, o, d, q)
      elif opn == 'feat':
        d = od = D
        st = rng.choice(['NDF', 'LP', 'PF', 'D', 'NL']); fn = lambda x, o, q: o.get_input_feature(st, ne)
        if int(om_.nnum[D]) > 300: continue
      elif opn == 'dropeval': m = nn.OctreeDropPath(.5, ne); m.eval(); fn = lambda x, o, q: m(x, o, d)
      xs = [torch.randn(rows(o, d, ne), C) for o in os_]
      qs = [query_pts(rng, o, rng.randint(1, 8)) for o in os_]
      order = [(s_, a) for s_ in range(len(qs)) for a in range(len(qs[s_]))]; rng.shuffle(order)
      qm = torch.stack([torch.cat([qs[s_][a][:3], torch.tensor([float(s_)])]) for s_, a in order])
      rowsl = [[order.index((s_, a)) + 1 for a in range(len(qs[s_]))] for s_ in range(len(qs))]
      def go():
        with torch.no_grad():
          return [fn(x, o, q) for x, o, q in zip(xs, os_, qs)], fn(cat_by(om_, d, ne, xs), om_, qm)
      emit(r, opn, kind, j, od, one_, None, None, go, rowsl)
    return r.ev
  def nets(rng):
    r = Rec()
    arch = rng.choice(['resnet', 'lenet', 'hrnet', 'segnet', 'unet', 'ae', 'ounet'])
    ne = rng.random() < .5 if arch not in ('ae', 'ounet') else False
    c = {'arch': arch, 'ne': ne, 'r': 1, 'm': rng.choice(['nearest', 'linear']), 'v': 2, 'code': 4}
    u = {'c': [6, 4, 8, 6], 'dc': [6, 8, 4], 'eb': [1, 1, 1], 'db': [1, 2], 'hd': 8, 'bn': 1, 'kind': 2}
    D, full, st = {'resnet': (4, 2, 2), 'lenet': (4, 2, 2), 'hrnet': (5, 2, rng.choice([2, 3])), 'segnet': (4, 2, 2), 'unet': (5, 2, 0), 'ae': (3, 1, 0), 'ounet': (3, 1, 0)}[arch]
    c.update({'D': D, 'F': full, 'st': st})
    ids, j, pts = mk(r, rng, D, full, rng.choice([2, 3]), 4)
    os_, om_ = [r.obj[k] for k in ids], r.obj[j]
    net = make_net(c, u, 4, 5)
    qs = [query_pts(rng, o, rng.randint(1, 8)) for o in os_]
    qm = torch.cat([torch.cat([q[:, :3], torch.full((len(q), 1), float(s))], 1) for s, q in enumerate(qs)])
    n = 0; rowsl = []
    for q in qs: rowsl.append(list(range(n + 1, n + len(q) + 1))); n += len(q)
    ft = 'ND'
    def fw(o, q):
      x = o.get_input_feature(ft, ne)
      if arch in ('segnet', 'unet'): return net(x, o, D, q)
      if arch == 'ae': return net(o, False)
      if arch == 'ounet': return net(o, o, False)
      return net(x, o, D)
    def go(sel=lambda z: z):
      def g():
        with torch.no_grad(): return [sel(fw(o, q)) for o, q in zip(os_, qs)], sel(fw(om_, qm))
      return g
    if arch in ('ae', 'ounet'):
      for d in range(full, D + 1): emit(r, arch + '.logits', 'rows', j, d, False, None, None, go(lambda z: z['logits'][d]))
      emit(r, arch + '.signal', 'rows', j, D, True, None, None, go(lambda z: z['signal']))
    else: emit(r, arch, 'pts' if arch in ('segnet', 'unet') else 'batch', j, D, ne, None, None, go(), rowsl)
    # the same clouds in another point order
    p, nr, f_ = pts[0]
    perm = list(range(len(p))); rng.shuffle(perm)
    k = r.build([p[a] for a in perm], D, full, 1, [nr[a] for a in perm], [f_[a] for a in perm]); r.cneighs(k)
    ev = {'e': 'same', 'what': 'permutation.' + arch, 'tol': TOL * 4}
    def h(ev):
      with torch.no_grad(): a, b = fw(os_[0], qs[0]), fw(r.obj[k], qs[0])
      if isinstance(a, dict): a, b = a['signal'], b['signal']
      sc = unit_of(a, b); ev['a'], ev['b'] = [FTf(a, sc)], [FTf(b, sc)]
    call(r, ev, h)
    return r.ev
  def order(rng):
    """merging in another order permutes the samples"""
    r = Rec()
    D, full = rng.choice([(2, 1), (3, 1), (4, 2)])
    ids, j, _ = mk(r, rng, D, full, 3)
    for _ in range(2):
      p = [rng.choice(ids) for _ in range(rng.randint(1, 4))]
      k = r.merge(p); r.cneighs(k)
      os_, o2 = [r.obj[a] for a in p], r.obj[k]
      d = rng.randint(1, D); ne = rng.random() < .5
      if int(o2.nnum[d]) > 250: d = 1
      m = nn.OctreeConv(2, 3, [3], 1, ne)
      xs = {a: torch.randn(rows(r.obj[a], d, ne), 2) for a in set(p)}
      def go():
        with torch.no_grad(): return [m(xs[a], r.obj[a], d) for a in p], m(cat_by(o2, d, ne, [xs[a] for a in p]), o2, d)
      emit(r, 'conv.position', 'rows', k, d, ne, None, None, go)
    return r.ev
  def skew(rng):
    """many samples, one of them holding almost all the nodes"""
    r = Rec()
    D, full = rng.choice([(4, 0), (4, 1)])
    B = rng.choice([5, 6, 8]); big = rng.randrange(B)
    ids = []
    for q_ in range(B):
      n = 170 if q_ == big else 1
      ids.append(r.build(cloud(rng, D, n, 1, 'uniform') if n > 1 else cloud(rng, D, n, 1), D, full, 1, normals(rng, n), feats(rng, n, 2))); r.cneighs(ids[-1])
    j = r.merge(ids); r.cneighs(j)
    os_, om_ = [r.obj[k] for k in ids], r.obj[j]
    for opn in ('gpool', 'gnorm', 'inorm', 'gpool2', 'voxel'):
      d = D if opn != 'voxel' else 1
      ne = True if opn in ('gpool', 'gnorm', 'inorm') else rng.random() < .5
      if opn == 'gnorm': m = nn.OctreeGroupNorm(4, 2, ne)
      elif opn == 'inorm': m = nn.OctreeInstanceNorm(4, ne)
      if opn.startswith('gpool'): fn, kind = (lambda x, o: nn.octree_global_pool(x, o, d, ne)), 'batch'
      elif opn == 'voxel': fn, kind = (lambda x, o: nn.octree2voxel(x, o, d, ne)), 'batch'
      else: fn, kind = (lambda x, o: m(x, o, d)), 'rows'
      C = 4 if kind == 'rows' else 2
      xs = [torch.randn(rows(o, d, ne), C) for o in os_]
      def go():
        with torch.no_grad(): return [fn(x, o) for x, o in zip(xs, os_)], fn(cat_by(om_, d, ne, xs), om_)
      emit(r, opn.rstrip('2'), kind, j, d, ne, None, None, go)
    return r.ev
  for _ in reps(tier, 3, 30): yield skew
  for _ in reps(tier, 55, 800): yield ops
  for _ in reps(tier, 30, 300): yield nets
  for _ in reps(tier, 15, 200): yield order

# ---------------------------------------------------------------- C22
def drive_C22(tier):
  def one(rng):
    """a pool of calls with fixed arguments, repeated in random order on shared octrees"""
    r = Rec()
    i = some_octree(r, rng, mind=2)
    o = r.obj[i]
    D = o.depth
    ids = [i]
    if rng.random() < .6:
      k = rng.random()
      if k < .5: 
        r_ = r.build(cloud(rng, D, rng.randint(1, 6), o.batch_size), D, o.full_depth, o.batch_size, None, None); r.cneighs(r_); ids.append(r_)
      else:
        from drv_points import ev_move
        if o.points[D] is not None or True: ids.append(ev_move(r, rng, i, 'cpu:0'))
    calls = []
    for _ in range(rng.randint(4, 7)): calls.append(mkcall(r, rng, rng.choice(ids), ids))
    calls = [c for c in calls if c]
    for n in range(rng.randint(10, 18)):
      if rng.random() < .12:     # unrelated activity
        q = rng.choice(ids); d = rng.randint(1, D)
        k = rng.random()
        if k < .4: r.neigh(q, d, rng.choice(KERNELS), rng.choice([1, 2]), rng.random() < .5)
        elif k < .7: r.layer(q, d, rng.random() < .5)
        elif k < .85 and o.batch_size == 1: r.merge([q, q])
        elif r.obj[q].points[D] is not None or r.obj[q].keys[D] is not None: 
          if r.obj[q].points[D] is not None: r.topoints(q)
        continue
      c = rng.choice(calls)
      ev = {'e': 'memo', 'key': 100000 + calls.index(c), 'what': c['n'], 'tol': 8}
      def f(ev):
        y = c['f']()
        ev['out'] = FTf(y, c['sc'] if 'sc' in c else c.setdefault('sc', unit_of(y)))
      call(r, ev, f, c['a'])
      # the caller may overwrite a returned tensor: later results must not depend on it
    return r.ev
  def mkcall(r, rng, i, ids):
    o = r.obj[i]; D = o.depth
    ds = [d for d in range(1, D + 1) if int(o.nnum[d]) <= 300] or [1]
    d = rng.choice(ds); ne = rng.random() < .5; C = rng.choice([2, 4])
    k, s = rng.choice(KERNELS), rng.choice([1, 2]); ks = list(KL[k][0])
    x = torch.randn(rows(o, d, ne), C)
    n = rng.choice(['conv', 'conv', 'deconv', 'dwconv', 'gconv', 'maxpool', 'unpool', 'avgpool', 'gpool', 'gnorm', 'col', 'pad', 'depad',
                    'nearest', 'linear', 'up', 'align', 'feat', 'voxel', 'grad', 'block', 'search', 'resnet', 'scatter', 'sval', 'points'])
    a = [('data', x)]
    ev = lambda fn: (lambda: nograd(fn))
    def nograd(fn):
      with torch.no_grad(): return fn()
    if n == 'conv': m = nn.OctreeConv(C, 3, ks, s, ne, direct_method=rng.random() < .4, use_bias=True, max_buffer=rng.choice([int(2e8), 27 * C * 5])); f = lambda: m(x, o, d)
    elif n == 'deconv':
      if s == 2:
        d -= 1; x = torch.randn(rows(o, d, ne), C); a = [('data', x)]
      m = nn.OctreeDeconv(C, 3, ks, s, ne, direct_method=rng.random() < .4); f = lambda: m(x, o, d)
    elif n == 'dwconv': m = nn.OctreeDWConv(C, ks, s, ne); f = lambda: m(x, o, d)
    elif n == 'gconv': m = nn.OctreeGroupConv(C, 4, ks, s, ne, group=2); f = lambda: m(x, o, d)
    elif n in ('maxpool', 'unpool'):
      if ne and not live_parents(o, d): return None
      m = None
      f = (lambda: nn.octree_max_pool(x, o, d, ne)) if n == 'maxpool' else (lambda: nn.octree_max_unpool(*nn.octree_max_pool(x, o, d, ne, True), o, d - 1, ne))
    elif n == 'avgpool': m = None; f = lambda: nn.octree_avg_pool(x, o, d, k, s, ne)
    elif n == 'gpool': m = None; f = lambda: nn.octree_global_pool(x, o, d, ne)
    elif n == 'gnorm': m = nn.OctreeGroupNorm(C, 2, ne); f = lambda: m(x, o, d)
    elif n == 'col': m = None; f = lambda: nn.octree2col(x, o, d, k, s, ne)
    elif n == 'pad':
      x = torch.randn(rows(o, d, True), C); a = [('data', x)]; m = None; f = lambda: nn.octree_pad(x, o, d, 1.)
    elif n == 'depad':
      x = torch.randn(rows(o, d, False), C); a = [('data', x)]; m = None; f = lambda: nn.octree_depad(x, o, d)
    elif n in ('nearest', 'linear'):
      q = query_pts(rng, o, 9); m = nn.OctreeInterp(n, ne, rng.random() < .5, rng.random() < .8)
      if not m.rescale_pts: q[:, :3] = (q[:, :3] + 1) * 2 ** (d - 1)
      a.append(('query', q)); f = lambda: m(x, o, d, q)
    elif n == 'up':
      t = min(D, d + 1); m = nn.OctreeUpsample(rng.choice(['nearest', 'linear']), ne); f = lambda: m(x, o, d, t)
      if t == d or int(o.nnum[t]) > 500: return None
    elif n == 'align':
      o2 = r.obj[rng.choice(ids)]; m = None; f = lambda: nn.octree_align(x, o, o2, d, ne)
    elif n == 'feat':
      if o.normals[D] is None and o.points[D] is None: return None
      st = 'PL'; m = None; f = lambda: o.get_input_feature(st, ne); a = []
    elif n == 'voxel':
      d = min(d, 2); x = torch.randn(rows(o, d, ne), C); a = [('data', x)]; m = None; f = lambda: nn.octree2voxel(x, o, d, ne)
    elif n == 'grad':
      mm = nn.OctreeConv(C, 3, ks, s, ne, max_buffer=rng.choice([int(2e8), 27 * C * 5])); m = None
      def f():
        with torch.enable_grad():
          z = x.clone().requires_grad_(True); y = mm(z, o, d); w = torch.linspace(-1, 1, y.numel()).view_as(y)
          g = torch.autograd.grad((y * w).sum(), [z, mm.weights])
        return torch.cat([t.flatten() for t in g])
      a.append(('weights', mm.weights.data))
    elif n == 'block':
      m = rng.choice([om.OctreeResBlock, om.OctreeResBlock2])(C, 4, 1, 2, ne); rnd_bn(m); m.eval(); f = lambda: m(x, o, d)
    elif n == 'search':
      q = torch.cat([torch.randint(0, 1 << d, (9, 3)), torch.randint(0, o.batch_size, (9, 1))], 1)
      key = ocnn.octree.xyz2key(*[q[:, z] for z in range(4)], d)
      m = None; a = [('query', q), ('key', key)]
      f = (lambda: o.search_xyzb(q, d, ne).float()) if rng.random() < .5 else (lambda: o.search_key(key, d, ne).float())
    elif n == 'resnet':
      if d < 2 or not live_parents(o, d): return None
      m = ocnn.models.ResNet(C, 3, 1, 1, ne); rnd_bn(m); m.eval(); f = lambda: m(x, o, d)
      if ne and not live_parents(o, d): return None
    elif n == 'scatter':
      idx = torch.randint(0, 4, (x.shape[0],)); m = None; a.append(('index', idx)); f = lambda: ocnn.utils.scatter_add(x, idx, 0, dim_size=5)
    elif n == 'sval':
      key = o.key(d, ne); qk = key[torch.randint(0, len(key), (5,))] if len(key) else key
      m = None; a += [('key', key), ('query', qk)]; f = lambda: nn.search_value(x, key, qk)
      if not len(key): return None
    else:
      p = torch.randn(6, 3) * .4; b = torch.randint(0, 2, (6, 1)); P = Points(p, torch.randn(6, 3), torch.randn(6, 2), batch_id=b, batch_size=2)
      m = None; a = [('cloud', P)]
      def f():
        z = Octree(3, 1, 2); z.build_octree(P); return torch.cat([z.points[3].flatten(), z.normals[3].flatten(), z.features[3].flatten()])
    if m is not None: a.append(('module', m))
    return {'n': n, 'f': ev(f), 'a': a}
  def lifecycle(rng):
    """sources of a merge, an export or a move are not altered by what happens to the result"""
    r = Rec()
    D, full = rng.choice([(2, 0), (2, 1), (3, 1), (3, 2)])
    ids = []
    for _ in range(rng.randint(1, 3)):
      n = rng.randint(1, 5); ids.append(r.build(cloud(rng, D, n), D, full, 1, normals(rng, n), feats(rng, n, 2)))
      if rng.random() < .5: r.cneighs(ids[-1])
    j = r.merge(ids)
    if rng.random() < .5: r.cneighs(j)
    if rng.random() < .5: r.topoints(j, rng.random() < .5)
    stale = set()
    def mut(k):
      o = r.obj[k]
      d = rng.randint(full, D)
      fl = lambda n: (lambda s: [int(z in s) for z in range(n)])({rng.randrange(n) for _ in range(rng.randint(0, 3))})
      r.split(k, d, fl(int(o.nnum[d])))
      fresh = o.neighs[d] is not None and (k, d) not in stale
      for q in range(d + 1, D + 1):
        fresh = fresh and rng.random() < .6        # only extend a table that describes the parent layer
        r.grow(k, q, fresh); (stale.discard if fresh else stale.add)((k, q)); r.split(k, q, fl(int(o.nnum[q])))
    for _ in range(rng.randint(1, 3)):
      mut(rng.choice(ids + [j, j]))
      k = rng.choice(ids + [j])
      r.layer(k, rng.randint(0, D), rng.random() < .5)
      if rng.random() < .5:
        r.cneighs(k); stale -= {(k, q) for q in range(D + 1)}
        r.neigh(k, rng.randint(1, D), rng.choice(KERNELS), 1, rng.random() < .5)
    return r.ev
  import drv_ops, drv_struct, drv_points
  def again(rng):
    """an octree that becomes another tree of the same layer sizes answers for the new tree, and
    octrees derived from it earlier keep answering for the old one"""
    r = Rec()
    D, full, bs = rng.choice([(2, 1, 2), (3, 1, 2), (3, 0, 3), (3, 2, 1), (2, 0, 3)])
    i = r.init(D, full, bs); drv_struct.grow_random(r, rng, i, D, full, .3, un=False)
    r.cneighs(i)
    ids = [i]
    if rng.random() < .5: ids.append(drv_points.ev_move(r, rng, i, rng.choice(['cpu', 'cpu:0'])))
    qs = [(d, ne) for d in range(full, D + 1) for ne in (False, True)]
    ks = [(rng.randint(1, D), rng.choice(KERNELS), rng.choice([1, 2]), rng.random() < .5) for _ in range(3)]
    for n in range(3):
      for q in ids:
        for d, ne in qs: r.layer(q, d, ne)
        for k in ks: r.neigh(q, *k)
        r.search(q, D, drv_struct.queries(rng, r, q, D, 12), rng.random() < .5, rng.choice(['key', 'xyzb']))
        if not n or rng.random() < .6:
          d, ne = rng.choice(qs)
          x = torch.tensor([[rng.randint(-4, 4)] for _ in range(rows(r.obj[q], d, ne))], dtype=torch.float32).view(-1, 1)
          drv_ops.ev_gpool(r, rng, q, d, ne, x)
        if n: drv_ops.redo(r, rng, q, 3)
      if n < 2:
        q = rng.choice(ids)
        drv_struct.reshuffle(r, rng, q, rng.randint(full, D), False); r.cneighs(q)
    return r.ev
  pool = [list(getattr(m, 'drive_C%02d' % k)('quick')) for m, ks in
          [(drv_ops, list(range(9, 22)) + [31]), (drv_struct, range(2, 9)), (drv_points, range(24, 27))] for k in ks] + [list(drive_C29('quick'))]
  def mixed(rng):
    """any program of the other drivers: the frame condition is checked on all of them"""
    return rng.choice(rng.choice(pool))(rng)
  for _ in reps(tier, 70, 900): yield one
  for _ in reps(tier, 40, 500): yield lifecycle
  for _ in reps(tier, 16, 200): yield again
  for _ in reps(tier, 60, 1500): yield mixed
