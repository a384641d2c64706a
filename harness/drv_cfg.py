"""Driver for C37: the solvers build the configured network and data set, and every shipped
configuration runs a training / testing / evaluation step on the CPU."""
import os, math, random as pyrandom
import numpy as np
import torch, ocnn
from rec import Rec, T, dig
from gen import *
from drv_eval import proj, scratch, write_ply, REPO, PS, Flags
from drv_struct import reps
from drv_net import query_pts
NO = {'k': 'none'}
def call(r, ev, fn, args=()): return r.call(ev, fn, args=args, m='tools')

SOLVERS = {'cls': ('classification', 'ClsSolver'), 'seg': ('segmentation', 'SegSolver'), 'ae': ('autoencoder', 'AutoEncoderSolver'),
           'completion': ('completion', 'CompletionSolver'), 'image': ('image2shape', 'Image2ShapeSolver')}
def solver(kind, **kw):
  m, c = SOLVERS[kind]
  s = object.__new__(getattr(proj(m), c))
  s.device, s.eval_rst = 'cpu', {}
  for k, v in kw.items(): setattr(s, k, v)
  return s

# ---------------------------------------------------------------- files of a data set
VIEWS = 24
def sample_files(rng, kind, root, names, npts, cls=3, fmt='ply'):
  """writes one shape per name with npts[k] points inside the unit box"""
  for name, n in zip(names, npts):
    u = 40 if kind in ('scannet', 'kitti') else 1
    P = [[rng.randint(-48, 48) / 64 for _ in range(3)] for _ in range(n)]
    if kind == 'scannet': P = [[8 * x, 8 * y, abs(z) + .1] for x, y, z in P]
    if kind == 'kitti': P = [[60 * x, 60 * y, z] for x, y, z in P]
    N = []
    while len(N) < n:
      v = [rng.randint(-3, 3) for _ in range(3)]
      if any(v): l = math.sqrt(sum(x * x for x in v)); N.append([x / l for x in v])
    C = [[rng.randrange(256) for _ in range(3)] for _ in range(n)]; C[0] = [0, 0, 0]; C[-1] = [255, 255, 255]
    L = [[k % cls] for k in range(n)]
    f = os.path.join(root, name)
    os.makedirs(os.path.dirname(f), exist_ok=True)
    if kind == 'modelnet': write_ply(f, P, N)
    elif kind == 'shapenet': write_ply(f, P, N, None, L)
    elif kind == 'scannet':
      if f.endswith('.npz'): np.savez(f, points=np.array(P, 'f4'), normals=np.array(N, 'f4'), colors=np.array(C, 'f4'), labels=np.array(L, 'i4').reshape(-1))
      else: write_ply(f, P, N, C, L)
    elif kind == 'kitti':
      np.concatenate([np.array(P, 'f4'), np.array(C, 'f4')[:, :1] / 256], 1).astype('f4').tofile(f)
      g = f.replace('velodyne', 'labels').replace('.bin', '.label'); os.makedirs(os.path.dirname(g), exist_ok=True)
      np.array([[0, 10, 40, 44, 50][l[0] % 5] for l in L], 'i4').tofile(g)
    elif kind == 'completion':
      if f.endswith('.npz'): np.savez(f, points=np.array(P, 'f4') * 50, normals=np.array(N, 'f4'))
      else: write_ply(f, [[50 * x for x in p] for p in P], N)
    else:                                              # ae, image: the list has no suffixes
      P = [[x / 2 for x in p] for p in P]
      if fmt == 'npz': np.savez(f + '.npz', points=np.array(P, 'f2'), normals=np.array(N, 'f2'))
      else: write_ply(f + '.ply', P, N)
      if kind == 'image':
        from PIL import Image
        g = f.replace('points.' + fmt, 'renderings') + '/rendering'; os.makedirs(g, exist_ok=True)
        for v in range(VIEWS): Image.new('RGB', (64, 64), (n, v, 7)).save(g + '/%02d.png' % v)

def names_of(rng, kind, k, fmt):
  base = rng.sample(['c%02d/s%02d' % (a, b) for a in range(3) for b in range(5)], k)
  if kind == 'modelnet': return [b + '.ply' for b in base] if rng.random() < .6 else [b + '.ply' for b in base]
  if kind == 'shapenet': return [b + '.ply' for b in base]
  if kind == 'scannet': return [b.replace('/', '_') + rng.choice(['.ply', '.npz']) for b in base]
  if kind == 'kitti': return ['dataset/sequences/%02d/velodyne/%06d.bin' % (rng.randrange(3), i) for i in rng.sample(range(50), k)]
  if kind == 'completion': return [b + '.' + fmt for b in base]
  return base
def base_flags(kind, root, lst, **kw):
  loc = root
  f = dict(name={'shapenet': 'shapenet', 'scannet': 'scannet', 'kitti': 'kitti'}.get(kind, 'x'), depth=4, full_depth=2, distort=False, angle=(0, 0, 5), interval=(1, 1, 1), scale=.1,
           uniform=True, jitter=.1, flip=(0., 0., 0.), orient_normal='', location=loc, filelist=lst, take=-1, in_memory=False, points_scale=.5, filetype='npz')
  f.update(kw)
  return Flags(f)
TASK = {'modelnet': 'cls', 'shapenet': 'seg', 'scannet': 'seg', 'kitti': 'seg', 'ae': 'ae', 'completion': 'completion', 'image': 'image'}

def drive_C37(tier):
  def data(kind):
    def f(rng):
      r = Rec()
      np.random.seed(rng.randrange(1 << 30)); pyrandom.seed(rng.randrange(1 << 30))
      fmt = rng.choice(['npz', 'ply']) if kind in ('ae', 'image', 'completion') else 'ply'
      with scratch() as d:
        root = d + ('/points.' + fmt if kind in ('ae', 'image') else '/x'); os.makedirs(root)
        k = rng.randint(2, 5)
        names = names_of(rng, kind, k, fmt); npts = rng.sample(range(3, 30), k)
        sample_files(rng, kind, root, names, npts, fmt=fmt)
        order = list(range(k)); rng.shuffle(order)
        if rng.random() < .3: order.append(rng.randrange(k))              # listed twice
        rows = []
        for i in order:
          has = rng.random() < .7
          rows.append([names[i], rng.randrange(40) if has else 0, has])
        with open(d + '/list.txt', 'w') as fid: fid.write('\n'.join(n + (' %d' % l if h else '') for n, l, h in rows) + rng.choice(['', '\n']))
        take = rng.choice([-1, -1, 0, 1, 2, 3, 99]) if kind in ('modelnet', 'shapenet') else -1
        mem = rng.random() < .5 if kind in ('kitti', 'ae', 'image') else False
        nm = rng.choice(['upper', 'lower'])
        fl = base_flags(kind, root, d + '/list.txt', take=take, in_memory=mem, filetype=fmt)
        if nm == 'upper': fl['name'] = fl['name'].upper()
        dep = rng.choice([3, 4, 4, 5]); ful = rng.randint(0, min(dep, 3))
        fl['depth'], fl['full_depth'] = dep, ful
        ev = {'e': 'data', 'kind': kind, 'list': rows, 'take': take, 'ids': [[n, c] for n, c in zip(names, npts)], 'depth': dep, 'full': ful}
        def go(ev):
          ds, coll = solver(TASK[kind]).get_dataset(fl)
          raw = dig(ds.samples) if mem and kind != 'image' else None
          ev['n'] = len(ds)
          items = [ds[i] for i in range(len(ds))]
          pk = 'points_gt' if kind == 'completion' else 'points'
          ev['keys'] = sorted(items[0])
          ev['items'] = [[it['filename'], int(it['label']), it[pk].npt] for it in items]
          ev['oct'] = [[int(it['octree'].depth), int(it['octree'].full_depth), int(it['octree'].batch_size)] if 'octree' in it else [] for it in items]
          ev['img'] = [[int(round(float(it['image'][c].mean()) * 255)) for c in range(3)] + list(it['image'].shape) for it in items] if kind == 'image' else []
          again = [ds[i] for i in reversed(range(len(ds)))][::-1]
          ev['again'] = all(dig(a[pk]) == dig(b[pk]) and a['filename'] == b['filename'] and a['label'] == b['label'] for a, b in zip(items, again))
          ev['raw'] = raw is None or raw == dig(ds.samples)
          z = coll(items)
          ev['bkeys'] = sorted(z); ev['bnames'] = list(z['filename']); ev['blab'] = T(z['label'])
          p = z[pk]
          ev['mode'] = 'list' if isinstance(p, list) else 'merged'
          ev['bnpt'] = [q.npt for q in p] if isinstance(p, list) else p.batch_npt.tolist()
          ev['bs'] = int(z['octree'].batch_size) if 'octree' in z else len(items)
          ev['bimg'] = T(torch.round(z['image'].mean((2, 3))[:, 0] * 255)) if kind == 'image' else NO
        call(r, ev, go)
      return r.ev
    return f
  def octree(rng, depth, ch, full=2):
    n = rng.randint(6, 40)
    g = 2 ** depth
    p = torch.tensor([[rng.randint(0, 4 * g - 1) for _ in range(3)] for _ in range(n)], dtype=torch.float32) / (4 * g) * 2 - 1
    pts = ocnn.octree.Points(p * .98, torch.nn.functional.normalize(torch.randn(n, 3)), torch.randn(n, 3))
    o = ocnn.octree.Octree(depth, full); o.build_octree(pts); o = ocnn.octree.merge_octrees([o, o]); o.construct_all_neigh()
    return o
  def model(task, name):
    def f(rng):
      r = Rec()
      ne = rng.random() < .5
      fl = Flags(name=rng.choice([name, name.upper(), name.capitalize()]), nempty=ne, interp=rng.choice(['linear', 'nearest']), stages=2, resblock_num=rng.choice([1, 2]), channel=rng.choice([3, 4, 5]),
                 nout=rng.choice([2, 6]), channel_out=rng.choice([3, 4]), depth=rng.choice([3, 4]), full_depth=rng.choice([2, 3]), feature='ND', upsample='nearest', sync_bn=False, use_checkpoint=False)
      if name == 'resnet': fl['stages'] = rng.choice([2, 3])
      if name == 'segnet': fl['stages'] = rng.choice([1, 2, 3])
      if task in ('ae', 'completion'): fl['feature'], fl['channel'] = rng.choice([('ND', 4), ('L', 3), ('P', 3), ('D', 1), ('LN', 6)])
      kw = {'lenet': dict(in_channels=fl.channel, out_channels=fl.nout, stages=fl.stages, nempty=ne),
            'resnet': dict(in_channels=fl.channel, out_channels=fl.nout, resblock_num=fl.resblock_num, stages=fl.stages, nempty=ne),
            'hrnet': dict(in_channels=fl.channel, out_channels=fl.nout, stages=fl.stages, nempty=ne),
            'segnet': dict(in_channels=fl.channel, out_channels=fl.nout, stages=fl.stages, interp=fl.interp, nempty=ne),
            'unet': dict(in_channels=fl.channel, out_channels=fl.nout, interp=fl.interp, nempty=ne),
            'autoencoder': dict(channel_in=fl.channel, channel_out=fl.channel_out, depth=fl.depth, full_depth=fl.full_depth, feature=fl.feature),
            'ounet': dict(channel_in=fl.channel, channel_out=fl.nout, depth=fl.depth, full_depth=fl.full_depth, feature=fl.feature),
            'image2shape': dict(channel_out=fl.channel_out, depth=fl.depth, full_depth=fl.full_depth)}[name]
      cls = {'lenet': 'LeNet', 'resnet': 'ResNet', 'hrnet': 'HRNet', 'segnet': 'SegNet', 'unet': 'UNet', 'autoencoder': 'AutoEncoder', 'ounet': 'OUNet', 'image2shape': 'Image2Shape'}[name]
      seed = rng.randrange(1 << 30)
      ev = {'e': 'model', 'task': task, 'flags': {k: v for k, v in fl.items() if not isinstance(v, tuple)}, 'cls': cls, 'kw': kw}
      D = {'lenet': fl.stages + 2, 'resnet': 4, 'hrnet': 4, 'segnet': 4, 'unet': 5}.get(name, fl.depth)
      torch.manual_seed(seed)
      o = octree(rng, D, fl.channel, fl.full_depth)
      x = torch.randn(int(o.nnum_nempty[D] if ne else o.nnum[D]), fl.channel)
      q = query_pts(rng, o, 12)
      img = torch.randn(2, 3, 64, 64)
      def out(m):
        m.eval()
        with torch.no_grad():
          if task == 'cls': return [m(x, o, D)]
          if task == 'seg': return [m(x, o, D, q)]
          y = m(img, o, update_octree=False) if task == 'image' else m(o, o, update_octree=False) if task == 'completion' else m(o, update_octree=False)
          return [y['signal']] + [y['logits'][d] for d in sorted(y['logits'])]
      def sd(m): return [[k, list(v.shape)] for k, v in m.state_dict().items()]
      def go(ev):
        m = solver(task).get_model(fl)
        ref = getattr(ocnn.models, cls)(**kw)
        ev['got'] = type(m).__name__
        ev['sd'], ev['ref'] = sd(m), sd(ref)
        w = {k: (v if not v.is_floating_point() else v + .1 * torch.rand(v.shape)) for k, v in ref.state_dict().items()}
        ref.load_state_dict(w)
        ev['ro'] = [T(t[:12], 'f') for t in out(ref)]
        m.load_state_dict(w)
        ev['mo'] = [T(t[:12], 'f') for t in out(m)]
      call(r, ev, go)
      return r.ev
    return f
  def unknown(rng):
    r = Rec()
    for task in ('cls', 'seg'):
      def go(ev):
        try: solver(task).get_model(Flags(name='nonet', channel=3, nout=4, stages=2, nempty=False, interp='linear', resblock_num=1)); ev['ok'] = True
        except ValueError: ev['ok'] = False
      call(r, {'e': 'unknown'}, go)
    def go(ev):
      try: solver('seg').get_dataset(base_flags('shapenet', '/nonexistent', '/nonexistent', name='abc')); ev['ok'] = True
      except ValueError: ev['ok'] = False
    call(r, {'e': 'unknown'}, go)
    return r.ev
  CONFIGS = [('ae_shapenet', 'ae', 'ae'), ('cls_m40', 'cls', 'modelnet'), ('cls_m40_hrnet', 'cls', 'modelnet'), ('completion', 'completion', 'completion'),
             ('image2shape', 'image', 'image'), ('seg_kitti', 'seg', 'kitti'), ('seg_scannet', 'seg', 'scannet'), ('seg_scannet_eval', 'seg', 'scannet'), ('seg_shapenet', 'seg', 'shapenet')]
  def config(cfg, task, kind):
    def f(rng):
      import thsolver.config as tc
      r = Rec()
      torch.manual_seed(rng.randrange(1 << 30)); np.random.seed(rng.randrange(1 << 30)); pyrandom.seed(rng.randrange(1 << 30))
      F = tc._C.clone(); F.defrost()
      for c in tc._load_from_file(os.path.join(REPO, 'projects/configs/%s.yaml' % cfg)): F.merge_from_other_cfg(c)
      with scratch() as d:
        fmt = 'npz'
        root = d + ('/points.' + fmt if kind in ('ae', 'image') else '/x'); os.makedirs(root)
        k = 2
        names = names_of(rng, kind, k, fmt); npts = rng.sample(range(30, 60), k)
        C = F.LOSS.num_class
        sample_files(rng, kind, root, names, npts, cls=min(C, 4), fmt=fmt)
        with open(d + '/list.txt', 'w') as fid: fid.write('\n'.join('%s %d' % (n, i + 1) for i, n in enumerate(names)))
        for s in ('train', 'test'):
          F.DATA[s].location, F.DATA[s].filelist = root, d + '/list.txt'
        os.makedirs(d + '/log')
        run = F.SOLVER.run
        s = solver(task, FLAGS=F, logdir=d + '/log')
        ft = getattr(F.MODEL, 'feature', '')
        ev = {'e': 'cfg', 'cfg': cfg, 'task': task, 'kind': kind, 'feature': list(ft), 'run': run, 'channel': int(F.MODEL.channel), 'nclass': int(C),
              'depth': {'train': int(F.DATA.train.depth), 'test': int(F.DATA.test.depth)}, 'full': {'train': int(F.DATA.train.full_depth), 'test': int(F.DATA.test.full_depth)},
              'mdepth': int(F.MODEL.depth) if 'depth' in F.MODEL else -1, 'mfull': int(F.MODEL.full_depth) if 'full_depth' in F.MODEL else -1,
              'nout': int(F.MODEL.nout if 'nout' in F.MODEL else F.MODEL.channel_out)}
        def batch(part):
          ds, coll = s.get_dataset(F.DATA[part])
          b = coll([ds[i] for i in range(len(ds))]); b['epoch'], b['iter_num'] = 0, 0
          return b
        def go(ev):
          s.model = s.get_model(F.MODEL)
          ev['keys'], ev['fin'], ev['nograd'], ev['width'] = {'train': [], 'test': []}, True, [], -1
          if run == 'train':
            s.model.train()
            o = s.train_step(batch('train'))
            ev['keys']['train'] = sorted(o); ev['fin'] = bool(torch.isfinite(o['train/loss'])) and o['train/loss'].dim() == 0
            o['train/loss'].backward()
            ev['nograd'] = sorted(k for k, p in s.model.named_parameters() if p.grad is None or not torch.isfinite(p.grad).all())
          s.model.eval()
          if run == 'train':             # an evaluation-only configuration has no loss
            o = s.test_step(batch('test'))
            ev['keys']['test'] = sorted(o); ev['fin'] = ev['fin'] and bool(torch.isfinite(o['test/loss']))
          if task in ('cls', 'seg'):
            b = batch('test'); b = s.process_batch(b, F.DATA.test) if task == 'seg' else b
            x = s.get_input_feature(b['octree']); ev['width'] = int(x.shape[1])
            ev['rows'] = int(x.shape[0]) == int(b['octree'].nnum_nempty[b['octree'].depth] if F.MODEL.nempty else b['octree'].nnum[b['octree'].depth])
          else: ev['rows'] = True
          ev['files'], ev['xfiles'] = [], []
          if task != 'cls':
            F.SOLVER.eval_epoch = 1
            with torch.no_grad(): s.eval_step(batch('test'))
            ev['files'] = sorted(os.path.relpath(os.path.join(b, q), d + '/log') for b, _, fs in os.walk(d + '/log') for q in fs)
            stem = [n[:-4] if kind in ('kitti', 'scannet', 'shapenet', 'completion') else n for n in names]
            suf = {'seg': ['.eval.npz'], 'image': ['.img.png', '.out.xyz']}.get(task, ['.in.xyz', '.out.xyz'])
            ev['xfiles'] = sorted(a + b for a in stem for b in suf)
        call(r, ev, go)
      return r.ev
    return f
  def pbatch(rng):
    """the octree a segmentation solver makes of a batch of clouds is the merge of the configured octrees"""
    r = Rec()
    s = solver('seg')
    for _ in range(2):
      D = rng.choice([2, 3, 4, 5]); full = rng.randint(0, min(D, 3 if D < 5 else 4))
      ids, clouds = [], []
      for _ in range(rng.randint(1, 3)):
        n = rng.randint(1, 8)
        p, nr = cloud(rng, D, n, 1), normals(rng, n, 'axis')
        clouds.append(r.make_points(p, D, 1, nr))
        ids.append(r.build(p, D, full, 1, nr))
      j = r.new_id()
      fl = Flags(depth=D, full_depth=full)
      ev = {'e': 'merge', 'id': j, 'ids': ids}
      def go(ev):
        b = s.process_batch({'points': clouds, 'epoch': 0}, fl)
        o = r.obj[j] = b['octree']
        ev['head'] = r.head(o); ev['snap'] = r.snap(o); ev['sig'] = r.sig(o)
        ev['bn'] = T(o.batch_nnum); ev['bne'] = T(o.batch_nnum_nempty)
      r.call(ev, go, args=[('cloud%d' % a, c.points) for a, c in enumerate(clouds)], writes=[j])
      r.call({'e': 'cneighs', 'id': j}, lambda ev: None, writes=[j])       # process_batch has done it
      for d in range(1, D + 1):
        if int(r.obj[j].nnum[d]) <= 700: r.neigh(j, d, '333', 1, rng.random() < .5)
    return r.ev
  for _ in reps(tier, 8, 60): yield pbatch
  for k in TASK:
    for _ in reps(tier, 6, 60): yield data(k)
  for t, n, q in (('cls', 'lenet', 4), ('cls', 'resnet', 4), ('cls', 'hrnet', 3), ('seg', 'segnet', 6), ('seg', 'unet', 3), ('ae', 'autoencoder', 4), ('completion', 'ounet', 3), ('image', 'image2shape', 5)):
    for _ in reps(tier, q, 8 * q): yield model(t, n)
  yield unknown
  for c in CONFIGS:
    for _ in reps(tier, 1, 4): yield config(*c)
